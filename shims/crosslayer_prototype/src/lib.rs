pub use shimcore::crosslayer::*;
