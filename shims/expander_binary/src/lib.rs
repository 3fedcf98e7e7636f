pub use shimcore::circuit::executor;
