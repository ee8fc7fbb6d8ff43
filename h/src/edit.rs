//! Shared pieces of the payload contracts: a plain byte sequence as the abstract value,
//! growable storage, and iterators with every legal size hint.
use crate::spec::*;
use crate::src::Src;
use midi2::buffer::*;
use midi2::prelude::*;

pub const CAP: usize = if cfg!(kani) { 40 } else { 300 };

/// Abstract payload: a byte sequence.
#[derive(Clone)]
pub struct Model {
    pub a: [u8; CAP],
    pub n: usize,
}
impl Model {
    pub fn new() -> Self {
        Model { a: [0; CAP], n: 0 }
    }
    pub fn get(&self) -> &[u8] {
        &self.a[..self.n]
    }
    pub fn splice(&mut self, from: usize, to: usize, d: &[u8]) {
        let mut out = [0u8; CAP];
        let mut t = 0;
        let mut i = 0;
        while i < from {
            out[t] = self.a[i];
            t += 1;
            i += 1;
        }
        i = 0;
        while i < d.len() {
            out[t] = d[i];
            t += 1;
            i += 1;
        }
        i = to;
        while i < self.n {
            out[t] = self.a[i];
            t += 1;
            i += 1;
        }
        self.a = out;
        self.n = t;
    }
}

/// Growable storage without an allocator.
#[derive(Clone)]
pub struct Grow<U: Unit, const N: usize> {
    pub a: [U; N],
    pub n: usize,
}
impl<U: Unit, const N: usize> Buffer for Grow<U, N> {
    type Unit = U;
    fn buffer(&self) -> &[U] {
        &self.a[..self.n]
    }
}
impl<U: Unit, const N: usize> BufferMut for Grow<U, N> {
    fn buffer_mut(&mut self) -> &mut [U] {
        &mut self.a[..self.n]
    }
}
impl<U: Unit, const N: usize> BufferDefault for Grow<U, N> {
    fn default() -> Self {
        Grow { a: [U::zero(); N], n: 0 }
    }
}
impl<U: Unit, const N: usize> BufferResize for Grow<U, N> {
    fn resize(&mut self, size: usize) {
        assert!(size <= N, "harness storage too small");
        let mut i = self.n;
        while i < size {
            self.a[i] = U::zero();
            i += 1;
        }
        self.n = size;
    }
}
impl<'a, U: Unit, const N: usize> FromBuffer<&'a [U]> for Grow<U, N> {
    fn from_buffer(value: &'a [U]) -> Self {
        let mut g = <Self as BufferDefault>::default();
        let mut i = 0;
        while i < value.len() {
            g.a[i] = value[i];
            i += 1;
        }
        g.n = value.len();
        g
    }
}

/// A data iterator with an arbitrary legal size hint.
pub struct It<'a, T: By> {
    pub d: &'a [u8],
    pub i: usize,
    /// understatement of the lower bound; overstatement of the upper bound, if any
    pub lo: usize,
    pub hi: Option<usize>,
    pub t: core::marker::PhantomData<T>,
}
impl<T: By> Iterator for It<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i < self.d.len() {
            self.i += 1;
            Some(T::mk(self.d[self.i - 1]))
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let r = self.d.len() - self.i;
        (r.saturating_sub(self.lo), self.hi.map(|h| r + h))
    }
}
pub fn it<T: By>(d: &[u8], lo: usize, hi: Option<usize>) -> It<'_, T> {
    It { d, i: 0, lo, hi, t: core::marker::PhantomData }
}

pub trait By: Copy {
    const BITS: u32;
    fn mk(v: u8) -> Self;
    fn val(self) -> u8;
}
impl By for u7 {
    const BITS: u32 = 7;
    fn mk(v: u8) -> Self {
        u7::new(v)
    }
    fn val(self) -> u8 {
        self.into()
    }
}
impl By for u8 {
    const BITS: u32 = 8;
    fn mk(v: u8) -> Self {
        v
    }
    fn val(self) -> u8 {
        self
    }
}

/// Arbitrary data of length `n`.
pub fn data<S: Src, const N: usize>(s: &mut S, n: usize, bits: u32) -> [u8; N] {
    let mut d = [0u8; N];
    let mut i = 0;
    while i < n {
        d[i] = s.bits(bits) as u8;
        i += 1;
    }
    d
}

/// Reads the payload back and compares it with the abstract value.
pub fn reads<T: By>(it: impl Iterator<Item = T>, pl: &[u8]) -> bool {
    let mut it = it;
    let mut i = 0;
    while i < pl.len() {
        match it.next() {
            Some(v) if v.val() == pl[i] => {}
            _ => return false,
        }
        i += 1;
    }
    it.next().is_none()
}

/// A byte sysex message holding exactly `pl`?
pub fn framed_bytes(d: &[u8], pl: &[u8]) -> bool {
    if d.len() != pl.len() + 2 || d[0] != 0xF0 || d[d.len() - 1] != 0xF7 {
        return false;
    }
    let mut i = 0;
    while i < pl.len() {
        if d[i + 1] != pl[i] {
            return false;
        }
        i += 1;
    }
    true
}
