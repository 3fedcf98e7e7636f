pub use shimcore::engine::BytesHashTranscript;
