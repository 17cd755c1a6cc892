pub use cxx;
