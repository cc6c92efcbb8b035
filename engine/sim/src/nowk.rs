//! Stands in for `wk` when the worker program cannot be compiled as a simulated process.
use crate::sim::*;
use std::rc::Rc;
pub fn reset() {}
pub fn running(_: usize) -> bool {
    false
}
pub fn listening(_: usize, _: i32) -> bool {
    false
}
pub fn usr1(_: usize) {}
pub fn kill(_: usize) {}
pub fn slurm(_: &Sim, _: usize, _: &str) {}
pub async fn worker(_: usize, _: &Client, _: &str, _: &[String], _: u32) {}
pub fn alone(_: &Rc<Sim>, _: &Scenario) {}

pub fn env(_: u32) -> Vec<String> {
    vec![]
}
pub const TOKEN: &str = "dG9rZW4=";
