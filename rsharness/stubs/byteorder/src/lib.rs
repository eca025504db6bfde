//! Only named, never used.
