//! Stand-in for diman: compile-time dimensions and units.
pub use diman_macros::dimension;
pub use diman_macros::unit_system;
pub type Quotient<A, B> = <A as std::ops::Div<B>>::Output;
pub type Product<A, B> = <A as std::ops::Mul<B>>::Output;
