pub mod run;
pub mod gram;
pub mod fam;
pub mod vmx;
pub mod sets;
pub mod real;
pub mod langs;
pub mod refread;
pub mod dump;
pub mod huge;
pub mod big;
pub mod uni;
mod alloc;
