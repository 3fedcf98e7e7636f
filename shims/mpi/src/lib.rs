pub use shimcore::mpi::{environment, ffi, topology, traits};
