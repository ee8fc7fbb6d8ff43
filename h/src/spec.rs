//! Specification of multi-packet messages: framing, extent and payload.
//! Written from the UMP format, not from the code under verification.
use crate::src::Src;

/// A kind of multi-packet UMP message.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Kind {
    /// message type nibble
    pub ty: u32,
    /// words per packet
    pub stride: usize,
    /// position and mask of the form field (complete 0, start 1, continue 2, end 3)
    pub form_shift: u32,
    pub form_mask: u32,
    /// first payload octet of a packet and payload octets per packet
    pub first: usize,
    pub cap: usize,
    /// bits of word 0 fixed by the message
    pub head_mask: u32,
    pub head: u32,
    /// bits of word 0 that agree in every packet
    pub same: u32,
    /// payload length is declared: 0 = no (text), 1 = size nibble, 2 = size nibble minus one
    pub sized: u8,
}

pub const SYSEX7: Kind = Kind { ty: 3, stride: 2, form_shift: 20, form_mask: 0xF, first: 2, cap: 6, head_mask: 0, head: 0, same: 0x0F00_0000, sized: 1 };
pub const SYSEX8: Kind = Kind { ty: 5, stride: 4, form_shift: 20, form_mask: 0xF, first: 3, cap: 13, head_mask: 0, head: 0, same: 0x0F00_FF00, sized: 2 };
pub const fn flex(bank: u32, status: u32) -> Kind {
    Kind { ty: 0xD, stride: 4, form_shift: 22, form_mask: 3, first: 4, cap: 12, head_mask: 0xFFFF, head: bank << 8 | status, same: 0x0F00_0000, sized: 0 }
}
pub const fn stream(status: u32) -> Kind {
    Kind { ty: 0xF, stride: 4, form_shift: 26, form_mask: 3, first: 2, cap: 14, head_mask: 0x03FF_0000, head: status << 16, same: 0, sized: 0 }
}
pub const FBNAME: Kind = Kind { ty: 0xF, stride: 4, form_shift: 26, form_mask: 3, first: 3, cap: 13, head_mask: 0x03FF_0000, head: 0x0012_0000, same: 0xFF00, sized: 0 };

impl Kind {
    pub fn form(&self, w0: u32) -> u32 {
        (w0 >> self.form_shift) & self.form_mask
    }
    /// Payload octets a packet declares (raw, text counts its padding).
    pub fn len(&self, w0: u32) -> usize {
        match self.sized {
            0 => self.cap,
            1 => ((w0 >> 16) & 0xF) as usize,
            _ => ((w0 >> 16) & 0xF) as usize - 1,
        }
    }
    fn len_ok(&self, w0: u32) -> bool {
        let n = (w0 >> 16) & 0xF;
        match self.sized {
            0 => true,
            1 => n <= 6,
            _ => n >= 1 && n <= 14,
        }
    }
    /// Number of whole packets of this message type at the start of `b`.
    pub fn run(&self, b: &[u32]) -> usize {
        let mut k = 0;
        while (k + 1) * self.stride <= b.len() && b[k * self.stride] >> 28 == self.ty {
            k += 1;
        }
        k
    }
    /// The number of packets of the message at the start of `b`, if there is one.
    pub fn accept(&self, b: &[u32]) -> Option<usize> {
        let n = self.run(b);
        if n == 0 {
            return None;
        }
        let mut k = 0;
        while k < n {
            let w = b[k * self.stride];
            let want = if n == 1 {
                0
            } else if k == 0 {
                1
            } else if k == n - 1 {
                3
            } else {
                2
            };
            if self.form(w) != want || w & self.head_mask != self.head || (w ^ b[0]) & self.same != 0 || !self.len_ok(w) {
                return None;
            }
            k += 1;
        }
        Some(n)
    }
    /// Octet `i` of the payload field of packet `k`.
    pub fn octet(&self, b: &[u32], k: usize, i: usize) -> u8 {
        let o = self.first + i;
        (b[k * self.stride + o / 4] >> (24 - 8 * (o % 4))) as u8
    }
    /// Total payload octets of the message of `n` packets.
    pub fn total(&self, b: &[u32], n: usize) -> usize {
        let mut t = 0;
        let mut k = 0;
        while k < n {
            t += self.len(b[k * self.stride]);
            k += 1;
        }
        t
    }
    /// Copies the payload of the message of `n` packets to `out`, returns its length.
    /// Text: NUL octets are padding and are left out.  7-bit: the low seven bits.
    pub fn payload(&self, b: &[u32], n: usize, out: &mut [u8]) -> usize {
        let mut t = 0;
        let mut k = 0;
        while k < n {
            let l = self.len(b[k * self.stride]);
            let mut i = 0;
            while i < l {
                let v = self.octet(b, k, i);
                let v = if self.sized == 1 { v & 0x7F } else { v };
                if self.sized != 0 || v != 0 {
                    out[t] = v;
                    t += 1;
                }
                i += 1;
            }
            k += 1;
        }
        t
    }
    /// Words of a message with `len` payload octets.
    pub fn words(&self, len: usize) -> usize {
        if len == 0 {
            self.stride
        } else {
            (len + self.cap - 1) / self.cap * self.stride
        }
    }
    /// Is `b` exactly the compact message holding `pl`, every packet carrying the bits
    /// `carry` (mask, value) in word 0, unused payload octets zero?
    pub fn compact(&self, b: &[u32], pl: &[u8], carry: (u32, u32)) -> bool {
        if b.len() != self.words(pl.len()) {
            return false;
        }
        let n = b.len() / self.stride;
        let mut k = 0;
        while k < n {
            let left = pl.len() - k * self.cap;
            let here = if left < self.cap { left } else { self.cap };
            let form = if n == 1 {
                0
            } else if k == 0 {
                1
            } else if k == n - 1 {
                3
            } else {
                2
            };
            let size = match self.sized {
                0 => 0,
                1 => here as u32,
                _ => here as u32 + 1,
            };
            let size_mask = if self.sized == 0 { 0 } else { 0xF << 16 };
            let mask = 0xF000_0000 | (self.form_mask << self.form_shift) | self.head_mask | size_mask | carry.0;
            let value = self.ty << 28 | form << self.form_shift | self.head | size << 16 | carry.1;
            if b[k * self.stride] & mask != value & mask {
                return false;
            }
            let mut i = 0;
            while i < self.cap {
                let want = if i < here { pl[k * self.cap + i] } else { 0 };
                if self.octet(b, k, i) != want {
                    return false;
                }
                i += 1;
            }
            k += 1;
        }
        true
    }
    /// Arbitrary words made into an accepted message of `n` packets: the form, type, fixed
    /// and common bits are forced, declared sizes are arbitrary legal ones.
    pub fn make<S: Src>(&self, s: &mut S, b: &mut [u32], n: usize) {
        let mut k = 0;
        while k < n {
            let form = if n == 1 {
                0
            } else if k == 0 {
                1
            } else if k == n - 1 {
                3
            } else {
                2
            };
            let size_mask = if self.sized == 0 { 0 } else { 0xF << 16 };
            let size = match self.sized {
                0 => 0,
                1 => s.upto(6) as u32,
                _ => 1 + s.upto(13) as u32,
            };
            let mask = 0xF000_0000 | (self.form_mask << self.form_shift) | self.head_mask | size_mask;
            let value = self.ty << 28 | form << self.form_shift | self.head | size << 16;
            let i = k * self.stride;
            b[i] = b[i] & !mask & !self.same | value | b[0] & self.same;
            k += 1;
        }
    }
}

/// Extent of a byte sysex message at the start of `b`.
pub fn accept_bytes(b: &[u8]) -> Option<usize> {
    if b.len() < 2 || b[0] != 0xF0 {
        return None;
    }
    let mut i = 1;
    while i < b.len() {
        if b[i] == 0xF7 {
            return Some(i + 1);
        }
        if b[i] > 0x7F {
            return None;
        }
        i += 1;
    }
    None
}
