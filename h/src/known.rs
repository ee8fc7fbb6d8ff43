//! Known findings: each returns true while the recorded input still fails.
use midi2::prelude::*;

/// A function block discovery message is one packet of four words; a lone word is accepted.
fn fbd_one_word() -> bool {
    midi2::ump_stream::FunctionBlockDiscovery::<&[u32]>::try_from(&[0xF010_0000u32][..]).is_ok()
}
fn fbd_new_one_word() -> bool {
    let mut w = [0u32; 1];
    midi2::ump_stream::FunctionBlockDiscovery::<&mut [u32]>::try_new_with_buffer(&mut w[..]).is_ok()
}
fn fbd_packets() -> bool {
    use midi2::Packets;
    let m = midi2::ump_stream::FunctionBlockDiscovery::<[u32; 4]>::new();
    m.data().len() != 4 || m.packets().any(|p| p.len() != 4)
}
/// Rebuffering looks at the whole storage behind a message, not at the message.
fn rebuffer_trailing() -> bool {
    use midi2::{RebufferFrom, TryRebufferFrom};
    let b = [0x2090_4050u32, 0x2080_4050];
    let m = midi2::channel_voice1::NoteOn::<&[u32]>::try_from(&b[..]).unwrap();
    midi2::channel_voice1::NoteOn::<[u32; 1]>::try_rebuffer_from(m).is_err()
}
pub const LIST: &[(&str, fn() -> bool)] = &[
    ("fbd_one_word", fbd_one_word),
    ("fbd_new_one_word", fbd_new_one_word),
    ("fbd_packets", fbd_packets),
    ("rebuffer_trailing", rebuffer_trailing),
];
