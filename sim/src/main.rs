//! Parts of the repository a property does not need are left out by cargo features.
#![cfg_attr(not(feature = "all"), allow(dead_code, unused_imports))]
mod world;
mod c01;
mod c04;
mod c05;
mod c06;
#[cfg(feature = "rips")]
mod c03;
#[cfg(all(feature = "rips", feature = "grpph"))]
mod c07;
#[cfg(feature = "grpph")]
mod c10;
mod checks;
mod drive;
mod expr;
mod field;
mod model;
mod simmat;
mod runner;

fn main() {
    runner::main();
}
