#![cfg(kani)]
//! Each harness proves, on the code of the dependency itself, what the
//! contracts assume of it.  No loop is cut short: kani's unwinding assertions
//! are on, and a harness fails when a loop could run longer than its bound.
//! Harnesses whose name starts with `bounded_` limit the length of a slice.
mod bitpack;
mod lists;
mod scalars;
