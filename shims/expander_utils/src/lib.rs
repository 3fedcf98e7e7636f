pub use shimcore::timer;
