#[macro_use]
pub mod algs;
pub mod coef;
pub mod cx;
pub mod mv;
pub mod session;
pub mod exact;
pub mod fft;
