pub mod codec;
pub mod der;
pub mod hash;
pub mod run;
