//! Specification of field value codes, and of bit-range extraction and placement.
//! Written from the MIDI 2.0 UMP layout and the crate's documented API; independent
//! of the code under verification.
use midi2::prelude::*;

/// A unit of a message buffer.
pub trait Un: Copy + PartialEq {
    const BITS: u32;
    fn up(self) -> u32;
    fn down(v: u32) -> Self;
}
impl Un for u32 {
    const BITS: u32 = 32;
    fn up(self) -> u32 {
        self
    }
    fn down(v: u32) -> Self {
        v
    }
}
impl Un for u8 {
    const BITS: u32 = 8;
    fn up(self) -> u32 {
        self as u32
    }
    fn down(v: u32) -> Self {
        v as u8
    }
}

pub type Seg = (usize, u32, u32); // unit index, low bit, width

pub fn ones(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

pub fn width(segs: &[Seg]) -> u32 {
    let mut n = 0;
    let mut i = 0;
    while i < segs.len() {
        n += segs[i].2;
        i += 1;
    }
    n
}

/// The code held in the bit ranges `segs` (most significant range first).
pub fn extract<U: Un>(buf: &[U], segs: &[Seg]) -> u64 {
    let mut v = 0u64;
    let mut i = 0;
    while i < segs.len() {
        let (u, lo, w) = segs[i];
        v = (v << w) | ((buf[u].up() as u64 >> lo) & ones(w));
        i += 1;
    }
    v
}

/// `buf` with the bits of `code` selected by `sel` placed in the bit ranges.
pub fn place<U: Un>(buf: &mut [U], segs: &[Seg], code: u64, sel: u64) {
    let mut rest = width(segs);
    let mut i = 0;
    while i < segs.len() {
        let (u, lo, w) = segs[i];
        rest -= w;
        let part = (code >> rest) & ones(w);
        let m = (sel >> rest) & ones(w);
        let old = buf[u].up() as u64;
        let new = (old & !(m << lo)) | ((part & m) << lo);
        buf[u] = U::down(new as u32);
        i += 1;
    }
}

/// A field value and its wire code.
pub trait Val: Copy + PartialEq {
    /// None: the code is reserved (a message holding it is not accepted).
    fn from_code(c: u64) -> Option<Self>;
    fn code(self) -> u64;
    /// Which code bits writing this value determines.
    fn writes(self) -> u64 {
        u64::MAX
    }
    /// Enumerated or structured, rather than a number.
    const TYPED: bool = true;
}

macro_rules! uint_val {
    ($($t:ident, $p:ident, $w:expr;)*) => {$(
        impl Val for $t {
            const TYPED: bool = false;
            fn from_code(c: u64) -> Option<Self> {
                Some($t::new(c as $p))
            }
            fn code(self) -> u64 {
                $p::from(self) as u64
            }
        }
    )*};
}
uint_val! { u4, u8, 4; u7, u8, 7; u14, u16, 14; u20, u32, 20; }

macro_rules! prim_val {
    ($($t:ident)*) => {$(
        impl Val for $t {
            const TYPED: bool = false;
            fn from_code(c: u64) -> Option<Self> {
                Some(c as $t)
            }
            fn code(self) -> u64 {
                self as u64
            }
        }
    )*};
}
prim_val! { u8 u16 u32 }

impl Val for bool {
    const TYPED: bool = false;
    fn from_code(c: u64) -> Option<Self> {
        Some(c != 0)
    }
    fn code(self) -> u64 {
        self as u64
    }
}

impl<const N: usize> Val for [u7; N] {
    const TYPED: bool = false;
    fn from_code(c: u64) -> Option<Self> {
        let mut a = [u7::new(0); N];
        let mut i = 0;
        while i < N {
            a[i] = u7::new(((c >> (7 * (N - 1 - i))) & 0x7F) as u8);
            i += 1;
        }
        Some(a)
    }
    fn code(self) -> u64 {
        let mut v = 0u64;
        let mut i = 0;
        while i < N {
            v = (v << 7) | u8::from(self[i]) as u64;
            i += 1;
        }
        v
    }
}

/// Program change bank: validity flag (bit 14) over a 14-bit bank.
impl Val for Option<u14> {
    fn from_code(c: u64) -> Option<Self> {
        Some(if c >> 14 & 1 == 1 {
            Some(u14::new((c & 0x3FFF) as u16))
        } else {
            None
        })
    }
    fn code(self) -> u64 {
        match self {
            Some(b) => 1 << 14 | u16::from(b) as u64,
            None => 0,
        }
    }
    fn writes(self) -> u64 {
        match self {
            Some(_) => u64::MAX,
            None => 1 << 14,
        }
    }
}

/// Flex data address: address field (2 bits) over the channel nibble.
impl Val for Option<u4> {
    fn from_code(c: u64) -> Option<Self> {
        Some(if c >> 4 == 0 {
            Some(u4::new((c & 0xF) as u8))
        } else {
            None
        })
    }
    fn code(self) -> u64 {
        match self {
            Some(ch) => u8::from(ch) as u64,
            None => 1 << 4,
        }
    }
}

use midi2::channel_voice2::{Controller, NoteAttribute as Attribute};

/// Note attribute: type octet over 16 data bits.
impl Val for Option<Attribute> {
    fn from_code(c: u64) -> Option<Self> {
        let d = c as u16;
        match c >> 16 {
            0 => Some(None),
            1 => Some(Some(Attribute::ManufacturerSpecific(d))),
            2 => Some(Some(Attribute::ProfileSpecific(d))),
            3 => Some(Some(Attribute::Pitch7_9(midi2::num::Fixed7_9::from_bits(d)))),
            _ => None,
        }
    }
    fn code(self) -> u64 {
        match self {
            None => 0,
            Some(Attribute::ManufacturerSpecific(d)) => 1 << 16 | d as u64,
            Some(Attribute::ProfileSpecific(d)) => 2 << 16 | d as u64,
            Some(Attribute::Pitch7_9(p)) => 3 << 16 | p.to_bits() as u64,
            Some(_) => panic!("unknown attribute"),
        }
    }
    fn writes(self) -> u64 {
        match self {
            None => 0xFF_0000,
            _ => u64::MAX,
        }
    }
}

/// Registered per-note controller: index octet over 32 data bits.
impl Val for Controller {
    fn from_code(c: u64) -> Option<Self> {
        use Controller::*;
        let d = c as u32;
        let i = (c >> 32) as u8;
        Some(match i {
            1 => Modulation(d),
            2 => Breath(d),
            3 => Pitch7_25(midi2::num::Fixed7_25::from_bits(d)),
            7 => Volume(d),
            8 => Balance(d),
            10 => Pan(d),
            11 => Expression(d),
            70..=79 => SoundController { index: i - 69, data: d },
            91..=95 => EffectDepth { index: i - 90, data: d },
            _ => return None,
        })
    }
    fn code(self) -> u64 {
        use Controller::*;
        let (i, d) = match self {
            Modulation(d) => (1u8, d),
            Breath(d) => (2, d),
            Pitch7_25(p) => (3, p.to_bits()),
            Volume(d) => (7, d),
            Balance(d) => (8, d),
            Pan(d) => (10, d),
            Expression(d) => (11, d),
            SoundVariation(d) => (70, d),
            Timbre(d) => (71, d),
            ReleaseTime(d) => (72, d),
            AttackTime(d) => (73, d),
            Brightness(d) => (74, d),
            DecayTime(d) => (75, d),
            VebratoRate(d) => (76, d),
            VebratoDepth(d) => (77, d),
            VebratoDelay(d) => (78, d),
            Undefined(d) => (79, d),
            ReverbSendLevel(d) => (91, d),
            ChorusSendLevel(d) => (93, d),
            SoundController { index, data } => (69 + index, data),
            EffectDepth { index, data } => (90 + index, data),
            _ => panic!("unknown controller"),
        };
        (i as u64) << 32 | d as u64
    }
}

use midi2::flex_data as fx;

impl Val for fx::Tonic {
    fn from_code(c: u64) -> Option<Self> {
        use fx::Tonic::*;
        Some(match c {
            0 => NonStandard,
            1 => A,
            2 => B,
            3 => C,
            4 => D,
            5 => E,
            6 => F,
            7 => G,
            _ => return None,
        })
    }
    fn code(self) -> u64 {
        use fx::Tonic::*;
        match self {
            NonStandard => 0,
            A => 1,
            B => 2,
            C => 3,
            D => 4,
            E => 5,
            F => 6,
            G => 7,
        }
    }
}

/// Key signature: two's complement nibble, -8 is non-standard.
impl Val for fx::SetKeySignatureSharpsFlats {
    fn from_code(c: u64) -> Option<Self> {
        use fx::SetKeySignatureSharpsFlats::*;
        Some(match c {
            0..=7 => Sharps(u3::new(c as u8)),
            8 => NonStandard,
            _ => Flats(u3::new((16 - c) as u8)),
        })
    }
    fn code(self) -> u64 {
        use fx::SetKeySignatureSharpsFlats::*;
        match self {
            Sharps(n) => u8::from(n) as u64,
            NonStandard => 8,
            Flats(n) => (16 - u8::from(n) as u64) & 0xF,
        }
    }
}

/// Chord accidental: two's complement nibble in -2..=2.
impl Val for fx::SetChordNameSharpsFlats {
    fn from_code(c: u64) -> Option<Self> {
        use fx::SetChordNameSharpsFlats::*;
        Some(match c {
            0 => Natural,
            1 => Sharp,
            2 => DoubleSharp,
            0xF => Flat,
            0xE => DoubleFlat,
            _ => return None,
        })
    }
    fn code(self) -> u64 {
        use fx::SetChordNameSharpsFlats::*;
        match self {
            Natural => 0,
            Sharp => 1,
            DoubleSharp => 2,
            Flat => 0xF,
            DoubleFlat => 0xE,
        }
    }
}

impl Val for Option<fx::Alteration> {
    fn from_code(c: u64) -> Option<Self> {
        use fx::Alteration::*;
        let d = u4::new((c & 0xF) as u8);
        Some(match c >> 4 {
            0 => None,
            1 => Some(Add(d)),
            2 => Some(Subtract(d)),
            3 => Some(Raise(d)),
            4 => Some(Lower(d)),
            _ => return None,
        })
    }
    fn code(self) -> u64 {
        use fx::Alteration::*;
        match self {
            None => 0,
            Some(Add(d)) => 0x10 | u8::from(d) as u64,
            Some(Subtract(d)) => 0x20 | u8::from(d) as u64,
            Some(Raise(d)) => 0x30 | u8::from(d) as u64,
            Some(Lower(d)) => 0x40 | u8::from(d) as u64,
        }
    }
}

macro_rules! enum_val {
    ($t:path; $($c:expr => $v:path,)*) => {
        impl Val for $t {
            fn from_code(c: u64) -> Option<Self> {
                Some(match c { $($c => $v,)* _ => return None })
            }
            fn code(self) -> u64 {
                match self { $($v => $c,)* }
            }
        }
    };
}

use fx::ChordType as CT;
enum_val! { fx::ChordType;
    0x00 => CT::ClearChord, 0x01 => CT::Major, 0x02 => CT::Major6th, 0x03 => CT::Major7th,
    0x04 => CT::Major9th, 0x05 => CT::Major11th, 0x06 => CT::Major13th, 0x07 => CT::Minor,
    0x08 => CT::Minor6th, 0x09 => CT::Minor7th, 0x0A => CT::Minor9th, 0x0B => CT::Minor11th,
    0x0C => CT::Minor13th, 0x0D => CT::Dominant, 0x0E => CT::Dominant9th, 0x0F => CT::Dominant11th,
    0x10 => CT::Dominant13th, 0x11 => CT::Augmented, 0x12 => CT::Augmented7th, 0x13 => CT::Diminished,
    0x14 => CT::Diminished7th, 0x15 => CT::HalfDiminished, 0x16 => CT::MajorMinor, 0x17 => CT::Pedal,
    0x18 => CT::Power, 0x19 => CT::Suspended2nd, 0x1A => CT::Suspended4th,
}

use midi2::ump_stream as us;
enum_val! { us::UiHint; 0 => us::UiHint::Undeclared, 1 => us::UiHint::Receiver, 2 => us::UiHint::Sender, 3 => us::UiHint::SenderReciever, }
enum_val! { us::Direction; 1 => us::Direction::Input, 2 => us::Direction::Output, 3 => us::Direction::Bidirectional, }
impl Val for Option<us::Midi1Port> {
    fn from_code(c: u64) -> Option<Self> {
        Some(match c {
            0 => None,
            1 => Some(us::Midi1Port::DontRestrictBandwidth),
            2 => Some(us::Midi1Port::RestrictBandwidth),
            _ => return None,
        })
    }
    fn code(self) -> u64 {
        match self {
            None => 0,
            Some(us::Midi1Port::DontRestrictBandwidth) => 1,
            Some(us::Midi1Port::RestrictBandwidth) => 2,
        }
    }
}

/// Header constraints of a message over `buf`.
pub fn header<U: Un>(buf: &[U], must: &[(usize, u32, u32)], not: &[(usize, u32, u32)]) -> bool {
    let mut i = 0;
    while i < must.len() {
        let (u, m, v) = must[i];
        if buf[u].up() & m != v {
            return false;
        }
        i += 1;
    }
    i = 0;
    while i < not.len() {
        let (u, m, v) = not[i];
        if buf[u].up() & m == v {
            return false;
        }
        i += 1;
    }
    true
}

/// `buf` with the header bits forced (keeps every other bit).
pub fn force<U: Un>(buf: &mut [U], must: &[(usize, u32, u32)]) {
    let mut i = 0;
    while i < must.len() {
        let (u, m, v) = must[i];
        buf[u] = U::down(buf[u].up() & !m | v);
        i += 1;
    }
}

pub fn any_buf<U: Un, S: crate::src::Src, const N: usize>(s: &mut S) -> [U; N] {
    let mut a = [U::down(0); N];
    let mut i = 0;
    while i < N {
        a[i] = U::down(s.bits(U::BITS) as u32);
        i += 1;
    }
    a
}

pub fn any_val<T: Val, S: crate::src::Src>(s: &mut S, w: u32) -> Option<T> {
    T::from_code(s.bits(w))
}

/// `new` equals `old` except at `code`'s bits; bits in `dc` not determined by the
/// value may instead be cleared.
pub fn framed<U: Un>(
    old: &[U],
    new: &[U],
    segs: &[Seg],
    code: u64,
    sel: u64,
    dc: &[(usize, u32)],
) -> bool {
    if old.len() != new.len() {
        return false;
    }
    let mut i = 0;
    while i < old.len() {
        let mut exp = old[i].up();
        let mut det = 0u32; // bits the value determines
        let mut rest = width(segs);
        let mut j = 0;
        while j < segs.len() {
            let (u, lo, w) = segs[j];
            rest -= w;
            if u == i {
                let m = (((sel >> rest) & ones(w)) << lo) as u32;
                exp = exp & !m | (((code >> rest) & ones(w)) << lo) as u32 & m;
                det |= m;
            }
            j += 1;
        }
        let mut free = 0u32;
        j = 0;
        while j < dc.len() {
            if dc[j].0 == i {
                free |= dc[j].1 & !det;
            }
            j += 1;
        }
        let d = exp ^ new[i].up();
        if d & !free != 0 || d & new[i].up() != 0 {
            return false;
        }
        i += 1;
    }
    true
}

pub fn same<U: Un>(a: &[U], b: &[U]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
