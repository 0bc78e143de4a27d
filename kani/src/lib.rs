//! Contracts of loop-free / fixed-iteration functions of /repo, decided by Kani (CBMC) for every input of the type.
//! The functions called are the crate's own compiled code (path dependency on /repo); nothing is copied.
#![cfg(kani)]
mod c03;
mod c19;
