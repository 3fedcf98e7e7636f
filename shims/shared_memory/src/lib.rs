pub use shimcore::shm::*;
