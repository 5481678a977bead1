pub use ethabi; pub use ethabi_derive; pub use ethabi_contract;
