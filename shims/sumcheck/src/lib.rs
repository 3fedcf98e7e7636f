pub use shimcore::gkr::{ProverScratchPad, ScratchPadBatch};
