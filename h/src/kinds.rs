//! The multi-packet message types with their specification.
//! The types differ in bank and status only (one attribute macro generates them all); without the
//! feature `deep` the verifier takes four of them, native runs always take all.
#[macro_export]
macro_rules! for_each_text_all {
    ($cb:ident) => {
        $cb! {
            { unknown_metadata_text, midi2::flex_data::UnknownMetadataText, 0x01, 0x00 }
            { project_name, midi2::flex_data::ProjectName, 0x01, 0x01 }
            { composition_name, midi2::flex_data::CompositionName, 0x01, 0x02 }
            { midi_clip_name, midi2::flex_data::MidiClipName, 0x01, 0x03 }
            { copyright_notice, midi2::flex_data::CopyrightNotice, 0x01, 0x04 }
            { composer_name, midi2::flex_data::ComposerName, 0x01, 0x05 }
            { lyricist_name, midi2::flex_data::LyricistName, 0x01, 0x06 }
            { arranger_name, midi2::flex_data::ArrangerName, 0x01, 0x07 }
            { publisher_name, midi2::flex_data::PublisherName, 0x01, 0x08 }
            { primary_performer_name, midi2::flex_data::PrimaryPerformerName, 0x01, 0x09 }
            { accompanying_performer_name, midi2::flex_data::AccompanyingPerformerName, 0x01, 0x0A }
            { recording_date, midi2::flex_data::RecordingDate, 0x01, 0x0B }
            { recording_location, midi2::flex_data::RecordingLocation, 0x01, 0x0C }
            { unknown_performance_text, midi2::flex_data::UnknownPerformanceText, 0x02, 0x00 }
            { lyrics, midi2::flex_data::Lyrics, 0x02, 0x01 }
            { lyrics_language, midi2::flex_data::LyricsLanguage, 0x02, 0x02 }
            { ruby, midi2::flex_data::Ruby, 0x02, 0x03 }
            { ruby_language, midi2::flex_data::RubyLanguage, 0x02, 0x04 }
        }
    };
}
#[cfg(not(all(kani, not(feature = "deep"))))]
#[macro_export]
macro_rules! for_each_text {
    ($cb:ident) => { $crate::for_each_text_all!($cb); };
}
#[cfg(all(kani, not(feature = "deep")))]
#[macro_export]
macro_rules! for_each_text {
    ($cb:ident) => {
        $cb! {
            { copyright_notice, midi2::flex_data::CopyrightNotice, 0x01, 0x04 }
            { recording_date, midi2::flex_data::RecordingDate, 0x01, 0x0B }
            { unknown_performance_text, midi2::flex_data::UnknownPerformanceText, 0x02, 0x00 }
            { lyrics, midi2::flex_data::Lyrics, 0x02, 0x01 }
        }
    };
}
