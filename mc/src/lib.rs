//! Explorers, reference models and reporting shared by the checks.
pub mod mac;
pub mod report;

#[cfg(feature = "full")]
pub mod choice;
#[cfg(feature = "full")]
pub mod fault;
#[cfg(feature = "full")]
pub mod entries;
#[cfg(feature = "full")]
pub mod hist;
#[cfg(feature = "full")]
pub mod html;
#[cfg(feature = "full")]
pub mod prog;
pub mod space;
#[cfg(feature = "full")]
pub mod specs;
#[cfg(feature = "full")]
pub mod tap;
#[cfg(feature = "full")]
pub mod vt;
#[cfg(feature = "full")]
pub mod writers;
