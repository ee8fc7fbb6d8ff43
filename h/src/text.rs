//! Arbitrary texts without NUL.
use crate::src::Src;

/// `n` bytes of text.  For the verifier any non-zero octets: the code under contract
/// handles text as octets.  Natively whole characters of one to four bytes.
pub struct Text<const N: usize> {
    pub a: [u8; N],
    pub n: usize,
}
impl<const N: usize> Text<N> {
    #[cfg(kani)]
    pub fn str(&self) -> &str {
        unsafe { core::str::from_utf8_unchecked(&self.a[..self.n]) }
    }
    #[cfg(not(kani))]
    pub fn str(&self) -> &str {
        core::str::from_utf8(&self.a[..self.n]).unwrap()
    }
    pub fn bytes(&self) -> &[u8] {
        &self.a[..self.n]
    }
}
#[cfg(kani)]
pub fn text<S: Src, const N: usize>(s: &mut S, n: usize) -> Text<N> {
    let mut a = [0u8; N];
    let mut i = 0;
    while i < n {
        a[i] = s.u8();
        kani::assume(a[i] != 0);
        i += 1;
    }
    Text { a, n }
}
#[cfg(not(kani))]
pub fn text<S: Src, const N: usize>(s: &mut S, n: usize) -> Text<N> {
    let mut a = [0u8; N];
    let mut i = 0;
    while i < n {
        let mut c = [0u8; 4];
        let k = s.upto(9);
        let ch = match k {
            0 => 'é',
            1 => '€',
            2 => '🎵',
            3 => '\u{7f}',
            4 => '\u{1}',
            _ => (0x20 + s.upto(94) as u8) as char,
        };
        let e = ch.encode_utf8(&mut c).as_bytes();
        if i + e.len() <= n {
            a[i..i + e.len()].copy_from_slice(e);
            i += e.len();
        } else {
            a[i] = b'.';
            i += 1;
        }
    }
    Text { a, n }
}
/// A length: around the packet boundaries more often than not.
pub fn length<S: Src>(s: &mut S, cap: usize, packets: usize) -> usize {
    match s.upto(3) {
        0 => s.upto(cap * packets),
        1 => s.upto(3),
        _ => {
            let k = s.upto(packets) * cap;
            let d = s.upto(2);
            (k + d).saturating_sub(1).min(cap * packets)
        }
    }
}
// The two messages whose accessors have other names, under the common ones.
use midi2::buffer::*;
#[cfg(feature = "std")]
type Str = std::string::String;
pub trait SetText {
    fn set_text(&mut self, t: &str);
}
pub trait TrySetText {
    fn try_set_text(&mut self, t: &str) -> Result<(), midi2::error::BufferOverflow>;
}
pub trait GetText {
    fn text_bytes(&self) -> impl Iterator<Item = u8> + '_;
    #[cfg(feature = "std")]
    fn text(&self) -> Str;
}
impl<B: Ump + BufferMut + BufferResize> SetText for midi2::flex_data::ComposerName<B> {
    fn set_text(&mut self, t: &str) {
        self.set_name(t)
    }
}
impl<B: Ump + BufferMut + BufferTryResize> TrySetText for midi2::flex_data::ComposerName<B> {
    fn try_set_text(&mut self, t: &str) -> Result<(), midi2::error::BufferOverflow> {
        self.try_set_name(t)
    }
}
impl<B: Ump> GetText for midi2::flex_data::ComposerName<B> {
    fn text_bytes(&self) -> impl Iterator<Item = u8> + '_ {
        self.name_bytes()
    }
    #[cfg(feature = "std")]
    fn text(&self) -> Str {
        self.name()
    }
}
pub trait SetName {
    fn set_name(&mut self, t: &str);
}
pub trait TrySetName {
    fn try_set_name(&mut self, t: &str) -> Result<(), midi2::error::BufferOverflow>;
}
pub trait GetName {
    fn name_bytes(&self) -> impl Iterator<Item = u8> + '_;
    #[cfg(feature = "std")]
    fn name(&self) -> Str;
}
impl<B: Ump + BufferMut + BufferResize> SetName for midi2::ump_stream::ProductInstanceId<B> {
    fn set_name(&mut self, t: &str) {
        self.set_id(t)
    }
}
impl<B: Ump + BufferMut + BufferTryResize> TrySetName for midi2::ump_stream::ProductInstanceId<B> {
    fn try_set_name(&mut self, t: &str) -> Result<(), midi2::error::BufferOverflow> {
        self.try_set_id(t)
    }
}
impl<B: Ump> GetName for midi2::ump_stream::ProductInstanceId<B> {
    fn name_bytes(&self) -> impl Iterator<Item = u8> + '_ {
        self.id_bytes()
    }
    #[cfg(feature = "std")]
    fn name(&self) -> Str {
        self.id()
    }
}
