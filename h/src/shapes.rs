//! Arbitrary slices biased towards well-formed messages (native).
use crate::spec::*;
use crate::src::Src;

pub fn kinds() -> [Kind; 26] {
    let mut k = [SYSEX7; 26];
    k[1] = SYSEX8;
    k[2] = stream(3);
    k[3] = stream(4);
    k[4] = FBNAME;
    for i in 0..13 {
        k[5 + i] = flex(1, i as u32);
    }
    for i in 0..5 {
        k[18 + i] = flex(2, i as u32);
    }
    k[23] = SYSEX7;
    k[24] = SYSEX8;
    k[25] = flex(0, 0);
    k
}
/// Some words; half the time a multi-packet message with a few bits flipped perhaps.
pub fn ump<S: Src, const N: usize>(s: &mut S, b: &mut [u32; N]) -> usize {
    let ty = s.upto(15) as u32;
    of(s, b, ty)
}
pub fn of<S: Src, const N: usize>(s: &mut S, b: &mut [u32; N], ty: u32) -> usize {
    for w in b.iter_mut() {
        *w = s.u32();
    }
    if s.upto(5) != 0 {
        b[0] = b[0] & 0x0FFF_FFFF | ty << 28;
    }
    if s.upto(3) != 0 {
        let all = kinds();
        let mut pick = s.upto(all.len() - 1);
        for _ in 0..all.len() {
            if all[pick].ty == ty {
                break;
            }
            pick = (pick + 1) % all.len();
        }
        let k = all[pick];
        let p = 1 + s.upto(N / k.stride - 2);
        k.make(s, b, p);
        let e = p * k.stride;
        // what follows is usually not of this type
        if s.upto(3) != 0 && e < N && b[e] >> 28 == k.ty {
            b[e] ^= 0x1000_0000;
        }
        match s.upto(7) {
            0 => {
                let i = s.upto(e - 1);
                b[i] ^= 1 << s.upto(31);
            }
            1 => return s.upto(N),
            _ => {}
        }
        return (e + s.upto(6)).min(N);
    }
    s.upto(N)
}
pub fn bytes<S: Src, const N: usize>(s: &mut S, b: &mut [u8; N]) -> usize {
    for w in b.iter_mut() {
        *w = s.u8();
    }
    match s.upto(3) {
        0 => {}
        1 => b[0] |= 0x80,
        2 => b[0] |= 0xF0,
        _ => {
            let p = s.upto(N - 2);
            b[0] = 0xF0;
            for i in 0..p {
                b[1 + i] &= 0x7F;
            }
            b[1 + p] = 0xF7;
            if s.upto(7) == 0 {
                let i = s.upto(p + 1);
                b[i] ^= 1 << s.upto(7);
            }
            return (p + 2 + s.upto(5)).min(N);
        }
    }
    s.upto(N)
}
