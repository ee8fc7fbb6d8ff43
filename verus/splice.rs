// Contracts for the generic payload edit. The body between the markers is copied from
// /repo/midi2/src/detail/helpers.rs on every run (bin/verus.py states what is replaced).
use vstd::prelude::*;
verus! {

pub mod model {
use vstd::prelude::*;

#[derive(Debug, PartialEq, Eq)]
pub struct SysexTryResizeError(pub usize);
#[derive(Debug, PartialEq, Eq)]
pub struct BufferOverflow;

/// The operations of the crate's `SysexInternal` trait, as the edit uses them. The abstract
/// value of a message is its payload; `cap` is the largest payload its storage can hold.
pub trait SysexInternal {
    type Byte;
    spec fn bytes(&self) -> Seq<Self::Byte>;
    spec fn cap(&self) -> nat;
    /// storage is memory: assumed: no more than an eighth of the address space
    proof fn in_memory(&self)
        ensures self.bytes().len() <= self.cap(), self.cap() <= usize::MAX / 8;

    fn compact(&mut self)
        ensures final(self).bytes() == old(self).bytes(), final(self).cap() == old(self).cap();
    fn payload_size(&self) -> (n: usize)
        ensures n == self.bytes().len();
    /// `try_resize`, and `resize` where it returns
    fn resize_to(&mut self, n: usize) -> (r: Result<(), SysexTryResizeError>)
        ensures
            final(self).cap() == old(self).cap(),
            r is Ok <==> n <= old(self).cap(),
            r is Ok ==> final(self).bytes().len() == n,
            r matches Err(e) ==> e.0 == old(self).cap() && final(self).bytes().len() == e.0,
            forall|i: int| 0 <= i < old(self).bytes().len() && i < final(self).bytes().len()
                ==> #[trigger] final(self).bytes()[i] == old(self).bytes()[i];
    fn move_payload_tail(&mut self, tail: usize, to: usize)
        requires tail <= old(self).bytes().len(), to <= old(self).bytes().len(),
        ensures
            final(self).cap() == old(self).cap(),
            final(self).bytes().len() == old(self).bytes().len(),
            forall|i: int| 0 <= i < old(self).bytes().len() ==> #[trigger] final(self).bytes()[i] ==
                if to >= tail {
                    if to <= i { old(self).bytes()[i - to + tail] } else { old(self).bytes()[i] }
                } else {
                    if to <= i && i < old(self).bytes().len() - (tail - to) { old(self).bytes()[i + tail - to] } else { old(self).bytes()[i] }
                };
    fn write_datum(&mut self, v: Self::Byte, i: usize)
        requires i < old(self).bytes().len(),
        ensures final(self).cap() == old(self).cap(), final(self).bytes() == old(self).bytes().update(i as int, v);
}
pub fn resize<S: SysexInternal>(s: &mut S, n: usize) -> (r: Result<(), SysexTryResizeError>)
    ensures
        final(s).cap() == old(s).cap(),
        r is Ok <==> n <= old(s).cap(),
        r is Ok ==> final(s).bytes().len() == n,
        r matches Err(e) ==> e.0 == old(s).cap() && final(s).bytes().len() == e.0,
        forall|i: int| 0 <= i < old(s).bytes().len() && i < final(s).bytes().len()
            ==> #[trigger] final(s).bytes()[i] == old(s).bytes()[i],
{
    s.resize_to(n)
}

/// A peekable finite iterator.
pub trait Peekable<T>: Sized {
    spec fn rest(&self) -> Seq<T>;
    fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first();
    fn peek(&mut self) -> (r: Option<&T>)
        ensures final(self).rest() == old(self).rest(), r is None <==> old(self).rest().len() == 0;
}
/// A finite iterator with a truthful size hint.
pub trait Data: Sized {
    type Item;
    type Peek: Peekable<Self::Item>;
    spec fn rest(&self) -> Seq<Self::Item>;
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        ensures r.0 <= self.rest().len(), r.1 matches Some(u) ==> self.rest().len() <= u;
    fn peekable(self) -> (p: Self::Peek)
        ensures p.rest() == self.rest();
}
pub enum Bound<T> { Included(T), Excluded(T), Unbounded }
pub trait RangeBounds {
    spec fn start(&self) -> Bound<usize>;
    spec fn end(&self) -> Bound<usize>;
    fn start_bound(&self) -> (b: Bound<usize>)
        ensures b == self.start();
    fn end_bound(&self) -> (b: Bound<usize>)
        ensures b == self.end();
}
pub open spec fn from<R: RangeBounds>(r: &R) -> int {
    match r.start() { Bound::Included(v) => v as int, Bound::Excluded(v) => v + 1, Bound::Unbounded => 0 }
}
pub open spec fn to<R: RangeBounds>(r: &R, n: int) -> int {
    match r.end() { Bound::Included(v) => v + 1, Bound::Excluded(v) => v as int, Bound::Unbounded => n }
}
pub open spec fn spliced<T>(x: Seq<T>, a: int, b: int, d: Seq<T>) -> Seq<T> {
    x.take(a) + d + x.skip(b)
}
}

pub mod detail {
use vstd::prelude::*;
use super::model::*;

//@FUNCTION
}
pub mod outer {
use vstd::prelude::*;
use super::model::*;
use super::detail;

//@FUNCTION2
//@FUNCTION3
}
fn main() {}
}
