pub use real::*;
