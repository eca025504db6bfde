pub use rand08::*;
