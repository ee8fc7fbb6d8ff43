// Contracts for payload iteration over UMP packets (C12). The function bodies are copied from
// /repo/midi2/src/@FILE on every run (bin/verus.py states what is replaced).
use vstd::prelude::*;
verus! {
pub const W: usize = @W;
/// `BitOps` for words
pub trait BitOps {
    spec fn nib(&self, i: int) -> u8;
    spec fn oct(&self, i: int) -> u8;
    fn nibble(&self, i: usize) -> (r: u8)
        requires i < 8,
        ensures r == self.nib(i as int);
    fn octet(&self, i: usize) -> (r: u8)
        requires i < 4,
        ensures r == self.oct(i as int);
}
pub uninterp spec fn nib_(w: u32, i: int) -> u8;
pub uninterp spec fn oct_(w: u32, i: int) -> u8;
impl BitOps for u32 {
    open spec fn nib(&self, i: int) -> u8 { nib_(*self, i) }
    open spec fn oct(&self, i: int) -> u8 { oct_(*self, i) }
    #[verifier::external_body]
    fn nibble(&self, i: usize) -> (r: u8) { unimplemented!() }
    #[verifier::external_body]
    fn octet(&self, i: usize) -> (r: u8) { unimplemented!() }
}

/// payload octets declared by packet k
pub open spec fn size(d: Seq<u32>, k: int) -> int { nib_(d[W * k], 3) - @BIAS }
pub open spec fn byte(d: Seq<u32>, k: int, i: int) -> u8 { oct_(d[W * k + (i + @OFF) / 4], (i + @OFF) % 4) }
pub open spec fn packet(d: Seq<u32>, k: int) -> Seq<u8> { Seq::new(size(d, k) as nat, |i: int| byte(d, k, i)) }
pub open spec fn count(d: Seq<u32>) -> int { d.len() as int / W as int }
/// the payload of packet k and all that follow
pub open spec fn from(d: Seq<u32>, k: int) -> Seq<u8>
    decreases count(d) - k,
{
    if 0 <= k < count(d) { packet(d, k) + from(d, k + 1) } else { Seq::empty() }
}
pub open spec fn wf(d: Seq<u32>) -> bool {
    d.len() % (W as nat) == 0 && d.len() <= usize::MAX / 8 && forall|k: int| 0 <= k < count(d) ==> 0 <= #[trigger] size(d, k) <= @MAX
}

/// `chunks_exact(W).enumerate()` over the packets from `first` on
pub struct Packets<'a> { data: &'a [u32], first: usize, at: usize }
impl<'a> Packets<'a> {
    pub closed spec fn d(&self) -> Seq<u32> { self.data@ }
    pub closed spec fn first(&self) -> int { self.first as int }
    pub closed spec fn at(&self) -> int { self.at as int }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, &'a [u32])>)
        ensures
            final(self).d() == old(self).d(), final(self).first() == old(self).first(),
            old(self).first() + old(self).at() < count(old(self).d()) ==> {
                &&& r matches Some(x) && x.0 == old(self).at()
                    && x.1@ == old(self).d().subrange(W * (old(self).first() + old(self).at()), W * (old(self).first() + old(self).at()) + W)
                &&& final(self).at() == old(self).at() + 1
            },
            old(self).first() + old(self).at() >= count(old(self).d()) ==> r is None && final(self).at() == old(self).at(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn packets<'a>(data: &'a [u32], first: usize) -> (r: Packets<'a>)
    requires first * W <= data@.len(),
    ensures r.d() == data@, r.first() == first, r.at() == 0,
{ unimplemented!() }
/// `&data[a..b]`
#[verifier::external_body]
pub fn slice<'a>(data: &'a [u32], a: usize, b: usize) -> (r: &'a [u32])
    requires a <= b <= data@.len(),
    ensures r@ == data@.subrange(a as int, b as int),
{ unimplemented!() }

pub struct PayloadIterator<'a> {
    data: &'a [u32],
    packet_index: usize,
    payload_index: usize,
    size_cache: usize,
}
impl<'a> PayloadIterator<'a> {
    pub closed spec fn d(&self) -> Seq<u32> { self.data@ }
    /// what the iterator has still to yield
    pub closed spec fn rest(&self) -> Seq<u8> {
        if self.packet_index < count(self.data@) { packet(self.data@, self.packet_index as int).skip(self.payload_index as int) + from(self.data@, self.packet_index + 1) }
        else { Seq::empty() }
    }
    pub closed spec fn inv(&self) -> bool {
        &&& wf(self.data@)
        &&& self.packet_index <= count(self.data@)
        &&& self.packet_index < count(self.data@) ==> self.payload_index == 0 || self.payload_index < size(self.data@, self.packet_index as int)
        &&& self.size_cache == self.rest().len()
    }
    /// the state inside `next`: the octet to yield lies in the current packet
    pub closed spec fn ready(&self) -> bool {
        &&& self.inv()
        &&& self.size_cache > 0 
        &&& self.packet_index < count(self.data@)
        &&& self.payload_index < size(self.data@, self.packet_index as int)
    }
@FNS
}
/// an accepted message
pub struct Msg<'a> { data: &'a [u32] }
impl<'a> Msg<'a> {
    pub closed spec fn d(&self) -> Seq<u32> { self.data@ }
    fn data(&self) -> (r: &'a [u32]) ensures r == self.data { self.data }
@MSG
}
/// `data.chunks_exact(W).map(packet_size).sum()`
fn total(data: &[u32]) -> (r: usize)
    requires wf(data@),
    ensures r == from(data@, 0).len(),
{
    let n = data.len() / W;
    let mut k = n;
    let mut r = 0usize;
    proof { lemma_total(data@, n as int); }
    while k > 0
        invariant wf(data@), n == count(data@), 0 <= k <= n, r == from(data@, k as int).len(),
        decreases k,
    {
        k -= 1;
        proof { lemma_index(data@, k as int); lemma_total(data@, k as int); assert(size(data@, k as int) >= 0); assert(from(data@, k as int) == packet(data@, k as int) + from(data@, k + 1)); }
        r += PayloadIterator::packet_size(slice(data, k * W, k * W + W));
    }
    r
}
proof fn lemma_index(d: Seq<u32>, k: int)
    requires wf(d), 0 <= k < count(d),
    ensures 0 <= W * k, W * k + W <= d.len(), d.subrange(W * k, W * k + W)[0] == d[W * k], W * (k + 1) <= d.len(), W * k + W == W * (k + 1)
{
    assert(W * k + W <= d.len()) by (nonlinear_arith) requires 0 <= k < d.len() as int / W as int, W == @W;
}
proof fn lemma_total(d: Seq<u32>, k: int)
    requires wf(d), 0 <= k <= count(d),
    ensures from(d, k).len() <= @MAX * (count(d) - k), from(d, k).len() <= usize::MAX / 2,
    decreases count(d) - k,
{
    if k < count(d) { lemma_total(d, k + 1); assert(size(d, k) <= @MAX); }
    assert(from(d, k).len() <= @MAX * (count(d) - k)) by (nonlinear_arith) requires
        k == count(d) ==> from(d, k).len() == 0,
        k < count(d) ==> from(d, k).len() <= @MAX + from(d, k + 1).len() && from(d, k + 1).len() <= @MAX * (count(d) - k - 1), k <= count(d);
    assert(@MAX * (count(d) - k) <= usize::MAX / 2) by (nonlinear_arith) requires 0 <= k, count(d) * W <= d.len(), d.len() <= usize::MAX / 8, W == @W;
}
fn main() {}
}
