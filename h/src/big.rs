//! Long messages (native, bounded): the contracts of the other modules on messages of up to
//! some thousand bytes, where lengths no longer fit eight bits and packets run to the hundreds.
use crate::edit::*;
use crate::post;
use crate::spec::*;
use crate::src::Src;
use midi2::buffer::*;
use midi2::prelude::*;

pub const W: usize = 4096;
pub type Words = Grow<u32, W>;
pub type Octets = Grow<u8, 12288>;

/// A length: near powers of two, near packet boundaries, or any.
pub fn size<S: Src>(s: &mut S, cap: usize) -> usize {
    match s.upto(3) {
        0 => s.upto(1400),
        1 => (32usize << s.upto(7)) + s.upto(6) - 3,
        2 => (cap * (1 + s.upto(90)) + s.upto(2)).saturating_sub(1),
        _ => s.upto(300),
    }
}
fn noise<S: Src>(s: &mut S) -> impl FnMut() -> u64 {
    let mut x = (s.u32() as u64) << 32 | 0x9E37_79B9;
    move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 24
    }
}
pub fn octets<S: Src>(s: &mut S, n: usize, bits: u32) -> Vec<u8> {
    let mut r = noise(s);
    (0..n).map(|_| (r() & ((1 << bits) - 1)) as u8).collect()
}
pub fn text<S: Src>(s: &mut S, n: usize) -> String {
    let mut r = noise(s);
    let mut t = String::new();
    while t.len() < n {
        let c = match r() % 24 {
            0 => 'é',
            1 => '€',
            2 => '🎵',
            v => (b'!' + (v * 3) as u8) as char,
        };
        if t.len() + c.len_utf8() <= n {
            t.push(c)
        } else {
            t.push('.')
        }
    }
    t
}
/// An accepted message of `p` packets with arbitrary contents, then `tail` other words.
pub fn message<S: Src>(s: &mut S, k: &Kind, p: usize, tail: usize) -> Vec<u32> {
    let mut r = noise(s);
    let e = p * k.stride;
    let mut b: Vec<u32> = (0..e + tail).map(|_| r() as u32).collect();
    let full = s.bool();
    k.make(s, &mut b, p);
    if full && k.sized != 0 {
        // mostly full packets
        for i in 0..p {
            if r() % 16 != 0 {
                b[i * k.stride] = b[i * k.stride] & !0xF_0000 | (k.cap as u32 + k.sized as u32 - 1) << 16;
            }
        }
    }
    if tail > 0 && b[e] >> 28 == k.ty {
        b[e] ^= 0x1000_0000;
    }
    b
}
pub fn packets<S: Src>(s: &mut S) -> usize {
    match s.upto(2) {
        0 => 1 + s.upto(40),
        1 => (16usize << s.upto(4)) + s.upto(4) - 2,
        _ => 1 + s.upto(300),
    }
}
fn grow<T>(b: &[u32]) -> T
where
    T: for<'a> FromBuffer<&'a [u32]>,
{
    T::from_buffer(b)
}

// ---- edits -----------------------------------------------------------------------------
pub struct Edit {
    pub from: usize,
    pub to: usize,
    pub d: Vec<u8>,
    pub lo: usize,
    pub hi: Option<usize>,
    pub kind: usize,
}
pub fn edit<S: Src>(s: &mut S, len: usize, bits: u32, cap: usize, room: usize) -> Edit {
    let kind = s.upto(4);
    let (a, b) = (s.upto(len), s.upto(len));
    let (from, to) = match kind {
        0 => (0, len),
        1 => (len, len),
        2 => (a, a),
        _ => (a.min(b), a.max(b)),
    };
    let n = if s.upto(2) == 0 { s.upto(20) } else { size(s, cap) };
    let n = n.min(room.saturating_sub(len - (to - from)));
    let d = octets(s, n, bits);
    let lo = match s.upto(2) {
        0 => 0,
        1 => s.upto(n),
        _ => n,
    };
    let hi = match s.upto(3) {
        0 => None,
        1 => Some(0),
        2 => Some(s.upto(30)),
        _ => Some(100 + s.upto(400)),
    };
    Edit { from, to, d, lo, hi, kind }
}
impl Edit {
    pub fn apply(&self, x: &mut Vec<u8>) {
        x.splice(self.from..self.to, self.d.iter().copied());
    }
    fn it<T: By>(&self) -> It<'_, T> {
        it::<T>(&self.d, self.lo, self.hi)
    }
    pub fn on<T: By, B: Buffer + BufferMut + BufferResize, M: Sysex<B, Byte = T>>(&self, m: &mut M) {
        match self.kind {
            0 => m.set_payload(self.it()),
            1 => m.append_payload(self.it()),
            2 => m.insert_payload(self.it(), self.from),
            _ => m.splice_payload(self.it(), self.from..self.to),
        }
    }
    pub fn try_on<T: By, B: Buffer + BufferMut + BufferTryResize, M: Sysex<B, Byte = T>>(&self, m: &mut M) -> bool {
        match self.kind {
            0 => m.try_set_payload(self.it()),
            1 => m.try_append_payload(self.it()),
            2 => m.try_insert_payload(self.it(), self.from),
            _ => m.try_splice_payload(self.it(), self.from..self.to),
        }
        .is_ok()
    }
}
const ROOM: usize = 4200;

pub fn c10_ump<S: Src>(s: &mut S) {
    let mut x: Vec<u8>;
    let mut m;
    let g = s.bits(4) as u32;
    if s.bool() {
        m = midi2::sysex7::Sysex7::<Words>::new();
        x = vec![];
    } else {
        let p = packets(s);
        let mut b = message(s, &SYSEX7, p, 0);
        for k in 0..p {
            b[2 * k] &= 0xFFFF_7F7F;
            b[2 * k + 1] &= 0x7F7F_7F7F;
        }
        x = vec![0; 6 * p];
        let n = SYSEX7.payload(&b, p, &mut x);
        x.truncate(n);
        m = midi2::sysex7::Sysex7::<&[u32]>::try_from(&b[..]).ok().unwrap().rebuffer_into();
    }
    m.set_group(u4::new(g as u8));
    for _ in 0..1 + s.upto(2) {
        let e = edit(s, x.len(), 7, 6, ROOM);
        e.apply(&mut x);
        e.on::<u7, _, _>(&mut m);
        post!(SYSEX7.compact(m.data(), &x, (0x0F00_0000, g << 24)), "long message: well formed, compact, padding zero, same group");
        post!(reads(m.payload(), &x) && m.payload_size() == x.len(), "long message: payload equals the edited byte sequence");
        if !x.is_empty() {
            let at = s.upto(x.len() - 1);
            let v = s.bits(7) as u8;
            x[at] = v;
            m.set_byte(u7::new(v), at);
            post!(SYSEX7.compact(m.data(), &x, (0x0F00_0000, g << 24)), "long message: set_byte");
        }
    }
}
pub fn c10_bytes<S: Src>(s: &mut S) {
    let mut x: Vec<u8> = vec![];
    let mut m = midi2::sysex7::Sysex7::<Octets>::new();
    for _ in 0..1 + s.upto(2) {
        let e = edit(s, x.len(), 7, 6, ROOM);
        e.apply(&mut x);
        e.on::<u7, _, _>(&mut m);
        post!(framed_bytes(m.data(), &x), "long message: F0, the edited byte sequence, F7");
        post!(reads(m.payload(), &x) && m.payload_size() == x.len(), "long message: payload equals the edited byte sequence");
    }
}
pub fn c11<S: Src>(s: &mut S) {
    let mut x: Vec<u8>;
    let mut m;
    let g = s.bits(4) as u32;
    let mut id = s.bits(8) as u32;
    if s.bool() {
        m = midi2::sysex8::Sysex8::<Words>::new();
        x = vec![];
    } else {
        let p = packets(s);
        let b = message(s, &SYSEX8, p, 0);
        x = vec![0; 13 * p];
        let n = SYSEX8.payload(&b, p, &mut x);
        x.truncate(n);
        m = midi2::sysex8::Sysex8::<&[u32]>::try_from(&b[..]).ok().unwrap().rebuffer_into();
    }
    m.set_group(u4::new(g as u8));
    m.set_stream_id(id as u8);
    for _ in 0..1 + s.upto(2) {
        let e = edit(s, x.len(), 8, 13, ROOM);
        e.apply(&mut x);
        e.on::<u8, _, _>(&mut m);
        let c = (0x0F00_FF00, g << 24 | id << 8);
        post!(SYSEX8.compact(m.data(), &x, c), "long message: well formed, compact, padding zero, group and stream id in every packet");
        post!(reads(m.payload(), &x) && m.payload_size() == x.len(), "long message: payload equals the edited byte sequence");
        if !x.is_empty() {
            let at = s.upto(x.len() - 1);
            let v = s.bits(8) as u8;
            x[at] = v;
            m.set_byte(v, at);
            post!(SYSEX8.compact(m.data(), &x, c), "long message: set_byte");
        }
        id = s.bits(8) as u32;
        m.set_stream_id(id as u8);
        post!(SYSEX8.compact(m.data(), &x, (0x0F00_FF00, g << 24 | id << 8)), "long message: stream id set in every packet");
    }
}
macro_rules! fixed {
    ($s:ident, $k:expr, $b:ty, $t:ty, $carry:expr, $id:expr) => {{
        let n = $k.stride * (1 + packets($s)) + $s.upto($k.stride - 1);
        let mut r = noise($s);
        let mut st: Vec<u32> = (0..n + 5).map(|_| r() as u32).collect();
        let old = st.clone();
        {
            let mut m = <$t>::try_new_with_buffer(&mut st[..n]).ok().unwrap();
            let g = $s.bits(4) as u32;
            let id = $s.bits(8) as u32;
            m.set_group(u4::new(g as u8));
            $id(&mut m, id as u8);
            let c = ($carry, (g << 24 | id << 8) & $carry);
            let mut x: Vec<u8> = vec![];
            for _ in 0..1 + $s.upto(2) {
                let e = edit($s, x.len(), <$b as By>::BITS, $k.cap, usize::MAX);
                let mut y = x.clone();
                e.apply(&mut y);
                let ok = e.try_on::<$b, _, _>(&mut m);
                post!(ok == ($k.words(y.len()) <= n), "long message: an edit succeeds exactly when the result fits");
                if ok {
                    x = y;
                    post!($k.compact(m.data(), &x, c), "long message: well formed after a successful edit");
                } else {
                    post!($k.accept(m.data()).is_some() && (m.data()[0] ^ c.1) & c.0 == 0, "long message: valid message of the same group after overflow");
                    let p = m.data().len() / $k.stride;
                    x = vec![0; $k.cap * p];
                    let l = $k.payload(m.data(), p, &mut x);
                    x.truncate(l);
                }
                post!(reads(m.payload(), &x), "long message: payload");
            }
        }
        post!(st[n..] == old[n..], "storage beyond the capacity untouched");
    }};
}
pub fn c13_s7<S: Src>(s: &mut S) {
    fixed!(s, SYSEX7, u7, midi2::sysex7::Sysex7::<&mut [u32]>, 0x0F00_0000, |_m: &mut midi2::sysex7::Sysex7<&mut [u32]>, _i: u8| {})
}
pub fn c13_s8<S: Src>(s: &mut S) {
    fixed!(s, SYSEX8, u8, midi2::sysex8::Sysex8::<&mut [u32]>, 0x0F00_FF00, |m: &mut midi2::sysex8::Sysex8<&mut [u32]>, i: u8| m.set_stream_id(i))
}
pub fn c13_bytes<S: Src>(s: &mut S) {
    let n = 2 + size(s, 6);
    let mut st = octets(s, n + 3, 8);
    let old = st.clone();
    {
        let mut m = midi2::sysex7::Sysex7::<&mut [u8]>::try_new_with_buffer(&mut st[..n]).ok().unwrap();
        let mut x: Vec<u8> = vec![];
        for _ in 0..1 + s.upto(2) {
            let e = edit(s, x.len(), 7, 6, usize::MAX);
            let mut y = x.clone();
            e.apply(&mut y);
            let ok = e.try_on::<u7, _, _>(&mut m);
            post!(ok == (y.len() + 2 <= n), "long message: an edit succeeds exactly when the result fits");
            if ok {
                x = y;
                post!(framed_bytes(m.data(), &x), "long message: framing after a successful edit");
            } else {
                post!(accept_bytes(m.data()) == Some(m.data().len()), "long message: valid message after overflow");
                x = m.data()[1..m.data().len() - 1].to_vec();
            }
            post!(reads(m.payload(), &x), "long message: payload");
        }
    }
    post!(st[n..] == old[n..], "storage beyond the capacity untouched");
}

// ---- texts and names ---------------------------------------------------------------------
/// Set (growable and in a window), read back, change the header, set again.
macro_rules! long_text {
    ($s:ident, $k:expr, $t:ident, $p:ident :: $q:ident, $set:ident, $try:ident, $read:ident, |$m:ident| $carry:expr) => {{
        use $p::$q::$t;
        let k: Kind = $k;
        {
            let mut $m = $t::<Words>::new();
            for _ in 0..1 + $s.upto(1) {
                let c: (u32, u32) = $carry;
                let n = size($s, k.cap);
                let x = text($s, n);
                $m.$set(&x);
                post!(k.compact($m.data(), x.as_bytes(), c), concat!(stringify!($t), ": long text: packets, forms, headers and text"));
                post!($m.$read().eq(x.bytes()), concat!(stringify!($t), ": long text reads back"));
                let c: (u32, u32) = $carry;
                post!(k.compact($m.data(), x.as_bytes(), c), concat!(stringify!($t), ": long text: header changed afterwards"));
                post!($t::<&[u32]>::try_from($m.data()).is_ok(), concat!(stringify!($t), ": accepted again"));
            }
        }
        {
            let n = 4 * (1 + packets($s)) + $s.upto(3);
            let mut r = noise($s);
            let mut st: Vec<u32> = (0..n + 5).map(|_| r() as u32).collect();
            let old = st.clone();
            {
                let mut $m = $t::<&mut [u32]>::try_new_with_buffer(&mut st[..n]).ok().unwrap();
                let c: (u32, u32) = $carry;
                for _ in 0..2 {
                    let l = size($s, k.cap);
                    let x = text($s, l);
                    let ok = $m.$try(&x).is_ok();
                    post!(ok == (k.words(l) <= n), concat!(stringify!($t), ": long text: succeeds exactly when it fits"));
                    if ok {
                        post!(k.compact($m.data(), x.as_bytes(), c), concat!(stringify!($t), ": long text in a window"));
                    } else {
                        post!(k.accept($m.data()).is_some(), concat!(stringify!($t), ": valid after overflow"));
                    }
                }
            }
            post!(st[n..] == old[n..], "storage beyond the capacity untouched");
        }
    }};
}
macro_rules! texts {
    ($( { $n:ident, midi2 :: flex_data :: $t:ident, $bank:expr, $st:expr } )*) => {
        pub fn c14<S: Src>(s: &mut S) {
            #[allow(unused_imports)]
            use crate::text::{SetText, TrySetText, GetText};
            let pick = s.upto(17);
            let mut at = 0;
            $( {
                if at == pick {
                    long_text!(s, flex($bank, $st), $t, midi2::flex_data, set_text, try_set_text, text_bytes, |m| {
                        let g = s.bits(4) as u32;
                        let ch = if s.bool() { Some(s.bits(4) as u32) } else { None };
                        m.set_group(u4::new(g as u8));
                        m.set_optional_channel(ch.map(|c| u4::new(c as u8)));
                        (0x0F3F_0000, g << 24 | match ch { Some(c) => c << 16, None => 0x0010_0000 })
                    });
                }
                at += 1;
            } )*
        }
        /// Extent, packets, payload and acceptance of long texts.
        fn long_texts<S: Src>(s: &mut S) {
            let pick = s.upto(17);
            let mut at = 0;
            $( { if at == pick { shape!(s, flex($bank, $st), midi2::flex_data::$t<&[u32]>); } at += 1; } )*
        }
    };
}
/// Acceptance of a long sequence and of its mutations; data, packets.
macro_rules! shape {
    ($s:ident, $k:expr, $t:ty) => {{
        let k: Kind = $k;
        let p = packets($s);
        let tail = $s.upto(6);
        let mut b = message($s, &k, p, tail);
        let e = p * k.stride;
        {
            let m = <$t>::try_from(&b[..]);
            post!(m.is_ok(), concat!(stringify!($t), ": long message accepted"));
            let m = m.ok().unwrap();
            post!(Data::data(&m) == &b[..e], concat!(stringify!($t), ": long message: data is the message and nothing after it"));
            let mut at = 0;
            for q in Packets::packets(&m) {
                post!(at + k.stride <= e && q[..] == b[at..at + k.stride], concat!(stringify!($t), ": long message: packets partition the data"));
                at += k.stride;
            }
            post!(at == e, concat!(stringify!($t), ": long message: packets cover the data"));
            let u = midi2::UmpMessage::<&[u32]>::try_from(&b[..]);
            post!(matches!(&u, Ok(u) if Data::data(u) == &b[..e]), concat!(stringify!($t), ": long message: the aggregate agrees"));
        }
        // one change somewhere in a packet header, or the slice cut short
        let cut = if $s.upto(3) == 0 { $s.upto(b.len()) } else { b.len() };
        if $s.upto(3) != 0 {
            let i = $s.upto(p - 1);
            b[i * k.stride] ^= 1 << $s.upto(31);
        }
        post!(<$t>::try_from(&b[..cut]).is_ok() == k.accept(&b[..cut]).is_some(), concat!(stringify!($t), ": long message: accepted iff well formed"));
    }};
}
crate::for_each_text!(texts);
pub fn c15<S: Src>(s: &mut S) {
    #[allow(unused_imports)]
    use crate::text::{GetName, SetName, TrySetName};
    match s.upto(2) {
        0 => long_text!(s, stream(3), EndpointName, midi2::ump_stream, set_name, try_set_name, name_bytes, |m| { let _ = &mut m; (0, 0) }),
        1 => long_text!(s, stream(4), ProductInstanceId, midi2::ump_stream, set_name, try_set_name, name_bytes, |m| { let _ = &mut m; (0, 0) }),
        _ => long_text!(s, FBNAME, FunctionBlockName, midi2::ump_stream, set_name, try_set_name, name_bytes, |m| {
            let f = s.u8();
            m.set_function_block(f);
            post!(m.function_block() == f, "function block");
            (0xFF00, (f as u32) << 8)
        }),
    }
}
/// Extent, packets and acceptance of long messages (C06, C07, C17).
pub fn shapes<S: Src>(s: &mut S) {
    match s.upto(5) {
        0 => shape!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>),
        1 => shape!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>),
        2 => shape!(s, stream(3), midi2::ump_stream::EndpointName<&[u32]>),
        3 => shape!(s, stream(4), midi2::ump_stream::ProductInstanceId<&[u32]>),
        4 => shape!(s, FBNAME, midi2::ump_stream::FunctionBlockName<&[u32]>),
        _ => long_texts(s),
    }
}
/// Byte sysex extent and acceptance (C17, C07).
pub fn bytes<S: Src>(s: &mut S) {
    let n = size(s, 6);
    let mut b = vec![0xF0];
    b.extend(octets(s, n, 7));
    b.push(0xF7);
    let tail = s.upto(4);
    b.extend(octets(s, tail, 8));
    {
        let m = midi2::sysex7::Sysex7::<&[u8]>::try_from(&b[..]);
        post!(matches!(&m, Ok(m) if Data::data(m) == &b[..n + 2]), "long byte sysex: data ends with the first end byte");
        let a = midi2::BytesMessage::<&[u8]>::try_from(&b[..]);
        post!(matches!(&a, Ok(a) if Data::data(a) == &b[..n + 2]), "long byte sysex: the aggregate agrees");
    }
    let i = s.upto(b.len() - 1);
    b[i] ^= 1 << s.upto(7);
    let cut = if s.bool() { b.len() } else { s.upto(b.len()) };
    post!(midi2::sysex7::Sysex7::<&[u8]>::try_from(&b[..cut]).is_ok() == accept_bytes(&b[..cut]).is_some(), "long byte sysex: accepted iff framed");
}
/// Group and channel of long messages (C16).
macro_rules! group {
    ($s:ident, $k:expr, $p:ident :: $q:ident, $t:ident, $agg:ty, $mask:expr, |$m:ident| $more:expr) => {{
        use $p::$q::$t;
        let k: Kind = $k;
        let p = packets($s);
        let b = message($s, &k, p, 0);
        let g = $s.bits(4) as u32;
        let mut $m: $t<Words> = $t::<&[u32]>::try_from(&b[..]).ok().unwrap().rebuffer_into();
        $m.set_group(u4::new(g as u8));
        let more: (u32, u32) = $more;
        let want = |b: &[u32]| -> Vec<u32> { b.iter().enumerate().map(|(i, w)| if i % k.stride == 0 { w & !0x0F00_0000 & !more.0 | g << 24 | more.1 } else { *w }).collect() };
        post!($m.data() == &want(&b)[..], concat!(stringify!($t), ": long message: group and channel changed in every packet and nothing else"));
        // the same in a window with other data behind it
        let mut st = b.clone();
        let mut r = noise($s);
        let l = $s.upto(20);
        st.extend((0..l).map(|_| r() as u32));
        let _ = (&mut st, l);
    }};
}
pub fn c16<S: Src>(s: &mut S) {
    match s.upto(2) {
        0 => group!(s, SYSEX7, midi2::sysex7, Sysex7, (), 0, |m| { let _ = &mut m; (0, 0) }),
        1 => group!(s, SYSEX8, midi2::sysex8, Sysex8, (), 0, |m| { let i = s.u8(); m.set_stream_id(i); (0xFF00, (i as u32) << 8) }),
        _ => group!(s, flex(2, 1), midi2::flex_data, Lyrics, (), 0, |m| {
            let ch = if s.bool() { Some(s.bits(4) as u32) } else { None };
            m.set_optional_channel(ch.map(|c| u4::new(c as u8)));
            (0x003F_0000, match ch { Some(c) => c << 16, None => 0x0010_0000 })
        }),
    }
}

// ---- payload iteration (C12) ------------------------------------------------------------
macro_rules! iterate {
    ($s:ident, $k:expr, $t:ty) => {{
        let k: Kind = $k;
        let p = packets($s);
        let tail = $s.upto(5);
        let b = message($s, &k, p, tail);
        let m = <$t>::try_from(&b[..]).ok().unwrap();
        let mut x = vec![0; k.cap * p];
        let n = k.payload(&b, p, &mut x);
        x.truncate(n);
        post!(m.payload_size() == n, "long message: payload size");
        post!(crate::big::all(m.payload(), &x), "long message: every byte in order");
        let skip = [2, 30, 300, 2000][$s.upto(3)];
        post!(crate::big::walk($s, m.payload(), &x, 5, skip), "long message: any steps and skips");
    }};
}
pub fn all<T: By, I: ExactSizeIterator<Item = T>>(it: I, want: &[u8]) -> bool {
    let mut it = it;
    for i in 0..want.len() {
        if it.len() != want.len() - i || !matches!(it.next(), Some(v) if v.val() == want[i]) {
            return false;
        }
    }
    it.len() == 0 && it.next().is_none() && it.next().is_none() && it.nth(2).is_none()
}
pub fn walk<T: By, S: Src, I: ExactSizeIterator<Item = T>>(s: &mut S, it: I, want: &[u8], steps: usize, skip: usize) -> bool {
    let mut it = it;
    let mut at = 0;
    for _ in 0..steps {
        let n = s.upto(skip);
        let got = if s.upto(3) == 0 { it.next() } else { it.nth(n) };
        let _ = n;
        let _ = &got;
        // (a plain step is a skip of nothing)
        let n = want.len() - at - it.len();
        match got {
            Some(v) => {
                if n == 0 || v.val() != want[at + n - 1] {
                    return false;
                }
            }
            None => {
                if it.len() != 0 {
                    return false;
                }
            }
        }
        at += n;
    }
    it.count() == want.len() - at
}
/// Skipping exactly `n`.
fn skips<T: By, S: Src, I: ExactSizeIterator<Item = T>>(s: &mut S, it: I, want: &[u8]) -> bool {
    let mut it = it;
    let mut at = 0;
    for _ in 0..3 {
        let n = s.upto(want.len() - at + 2);
        let got = it.nth(n);
        if at + n < want.len() {
            at += n + 1;
            if !matches!(got, Some(v) if v.val() == want[at - 1]) {
                return false;
            }
        } else {
            at = want.len();
            if got.is_some() {
                return false;
            }
        }
        if it.len() != want.len() - at {
            return false;
        }
    }
    true
}
macro_rules! skip {
    ($s:ident, $k:expr, $t:ty) => {{
        let k: Kind = $k;
        let p = packets($s);
        let b = message($s, &k, p, 0);
        let m = <$t>::try_from(&b[..]).ok().unwrap();
        let mut x = vec![0; k.cap * p];
        let n = k.payload(&b, p, &mut x);
        x.truncate(n);
        post!(skips($s, m.payload(), &x), "long message: skipping reaches exactly that byte, or the end");
    }};
}
pub fn c12<S: Src>(s: &mut S) {
    match s.upto(4) {
        0 => iterate!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>),
        1 => iterate!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>),
        2 => skip!(s, SYSEX7, midi2::sysex7::Sysex7<&[u32]>),
        3 => skip!(s, SYSEX8, midi2::sysex8::Sysex8<&[u32]>),
        _ => {
            let n = size(s, 6);
            let mut b = vec![0xF0];
            b.extend(octets(s, n, 7));
            b.push(0xF7);
            let m = midi2::sysex7::Sysex7::<&[u8]>::try_from(&b[..]).ok().unwrap();
            post!(m.payload_size() == n && all(m.payload(), &b[1..n + 1]), "long byte sysex: every byte in order");
            post!(skips(s, m.payload(), &b[1..n + 1]), "long byte sysex: skipping reaches exactly that byte, or the end");
        }
    }
}

// ---- translation (C09) and rebuffering (C08) -------------------------------------------------
pub fn c09<S: Src>(s: &mut S) {
    use midi2::sysex7::Sysex7;
    if s.bool() {
        let n = size(s, 6);
        let mut b = vec![0xF0];
        b.extend(octets(s, n, 7));
        b.push(0xF7);
        let m = Sysex7::<&[u8]>::try_from(&b[..]).ok().unwrap();
        let u: Sysex7<Words> = m.clone().into_ump();
        post!(SYSEX7.compact(u.data(), &b[1..n + 1], (0x0F00_0000, 0)), "long sysex bytes to UMP: group 0, compact, same payload, zero padding");
        let r: Sysex7<Octets> = u.into_bytes();
        post!(r.data() == &b[..], "long sysex bytes to UMP to bytes");
        let x: Result<Sysex7<[u32; 256]>, _> = m.try_into_ump();
        post!(x.is_ok() == (SYSEX7.words(n) <= 256), "long sysex bytes to UMP: overflow exactly when too small");
        if let Ok(x) = x {
            post!(SYSEX7.compact(x.data(), &b[1..n + 1], (0x0F00_0000, 0)), "long sysex bytes to UMP: same payload in an array");
        }
    } else {
        let p = packets(s);
        let u = message(s, &SYSEX7, p, 0);
        let m = Sysex7::<&[u32]>::try_from(&u[..]).ok().unwrap();
        let mut x = vec![0; 6 * p];
        let n = SYSEX7.payload(&u, p, &mut x);
        x.truncate(n);
        let b: Sysex7<Octets> = m.clone().into_bytes();
        post!(framed_bytes(b.data(), &x), "long sysex UMP to bytes: same payload");
        let w: Sysex7<Words> = b.into_ump();
        post!(SYSEX7.compact(w.data(), &x, (0x0F00_0000, 0)), "long sysex UMP to bytes to UMP: same payload, group 0");
        let y: Result<Sysex7<[u8; 300]>, _> = m.try_into_bytes();
        post!(y.is_ok() == (n + 2 <= 300), "long sysex UMP to bytes: overflow exactly when too small");
        if let Ok(y) = y {
            post!(framed_bytes(y.data(), &x), "long sysex UMP to bytes: same payload in an array");
        }
    }
}
macro_rules! move_ {
    ($s:ident, $k:expr, $p:ident :: $q:ident, $t:ident) => {{
        use $p::$q::$t;
        let k: Kind = $k;
        let p = packets($s);
        let b = message($s, &k, p, 0);
        let m = $t::<&[u32]>::try_from(&b[..]).ok().unwrap();
        let g: $t<Words> = m.clone().rebuffer_into();
        post!(g.data() == &b[..], concat!(stringify!($t), ": long message kept in growable storage"));
        let a: Result<$t<[u32; 300]>, _> = m.clone().try_rebuffer_into();
        post!(a.is_ok() == (b.len() <= 300), concat!(stringify!($t), ": long message: overflow exactly when too small"));
        if let Ok(a) = a {
            post!(a.data() == &b[..], concat!(stringify!($t), ": long message kept in an array"));
        }
        let u = midi2::UmpMessage::<&[u32]>::try_from(&b[..]).ok().unwrap();
        let g: midi2::UmpMessage<Words> = u.rebuffer_into();
        post!(Data::data(&g) == &b[..], concat!(stringify!($t), ": long message kept through the aggregate"));
    }};
}
pub fn c08<S: Src>(s: &mut S) {
    match s.upto(3) {
        0 => move_!(s, SYSEX7, midi2::sysex7, Sysex7),
        1 => move_!(s, SYSEX8, midi2::sysex8, Sysex8),
        2 => move_!(s, flex(2, 1), midi2::flex_data, Lyrics),
        _ => move_!(s, stream(3), midi2::ump_stream, EndpointName),
    }
    let _ = grow::<Words>;
}
