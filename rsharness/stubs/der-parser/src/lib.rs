//! A stand-in for der-parser: object identifiers only, kept as text.
#[derive(Clone, Copy, Debug)]
pub struct Oid<'a>(pub &'a str);
impl Oid<'_> {
    /// The dotted form, without the spaces that stringify! may put in.
    pub fn dotted(&self) -> String {
        self.0.chars().filter(|c| !c.is_whitespace()).collect()
    }
    pub fn to_id_string(&self) -> String {
        self.dotted()
    }
}
impl PartialEq for Oid<'_> {
    fn eq(&self, o: &Self) -> bool {
        self.dotted() == o.dotted()
    }
}
impl std::fmt::Display for Oid<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.dotted())
    }
}
#[macro_export]
macro_rules! oid {
    ($($t:tt)*) => { $crate::Oid(stringify!($($t)*)) };
}
pub mod oid {
    pub use crate::Oid;
}
