//! The scenarios, shared by the simulators.
pub mod budget;
pub mod calls;
pub mod cli;
pub mod damage;
pub mod load;
pub mod logs;
pub mod net;
pub mod ops;
pub mod threads;
pub mod wire;
