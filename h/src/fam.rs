//! The aggregate a message belongs to, and what the aggregate offers.
#[macro_export]
macro_rules! fam {
    (channel_voice1, $b:ty) => { midi2::channel_voice1::ChannelVoice1<$b> };
    (channel_voice2, $b:ty) => { midi2::channel_voice2::ChannelVoice2<$b> };
    (system_common, $b:ty) => { midi2::system_common::SystemCommon<$b> };
    (utility, $b:ty) => { midi2::utility::Utility<$b> };
    (flex_data, $b:ty) => { midi2::flex_data::FlexData<$b> };
    (ump_stream, $b:ty) => { midi2::ump_stream::UmpStream<$b> };
}
/// Expands the body for aggregates that have a group.
#[macro_export]
macro_rules! if_group {
    (channel_voice1, u32, $e:block) => { $e };
    (channel_voice2, u32, $e:block) => { $e };
    (system_common, u32, $e:block) => { $e };
    (flex_data, u32, $e:block) => { $e };
    ($m:ident, $u:tt, $e:block) => {};
}
/// ... a channel.
#[macro_export]
macro_rules! if_channel {
    (channel_voice1, $u:tt, $e:block) => { $e };
    (channel_voice2, $u:tt, $e:block) => { $e };
    ($m:ident, $u:tt, $e:block) => {};
}
/// ... conversion to an array of the fixed size.
#[macro_export]
macro_rules! if_array {
    (flex_data, $e:block) => {};
    (ump_stream, $e:block) => {};
    ($m:ident, $e:block) => { $e };
}
#[macro_export]
macro_rules! if_ump {
    (u32, $e:block) => { $e };
    ($u:tt, $e:block) => {};
}
/// Do two packet sequences agree?
pub fn same_packets(a: midi2::PacketsIterator, b: midi2::PacketsIterator) -> bool {
    let (mut a, mut b) = (a, b);
    if a.len() != b.len() || a.size_hint() != b.size_hint() {
        return false;
    }
    loop {
        match (a.next(), b.next()) {
            (None, None) => return true,
            (Some(x), Some(y)) => {
                if !crate::val::same(&x, &y) {
                    return false;
                }
            }
            _ => return false,
        }
    }
}
