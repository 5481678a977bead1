pub mod adapt;
pub mod child;
pub mod codec;
pub mod doc;
pub mod driver;
pub mod json;
pub mod keccak;
pub mod mty;
pub mod stream;
pub mod text;
pub use simrt;
