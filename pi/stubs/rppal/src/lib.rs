//! Replacement of the parts of rppal that are in use, on a simulated Raspberry Pi.

pub mod gpio;
pub mod sim;
pub mod spi;
