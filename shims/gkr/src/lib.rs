pub use shimcore::gkr::*; pub use shimcore::engine::GKREngine;
