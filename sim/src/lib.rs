pub mod geo;
pub mod rng;
pub mod runner;
pub mod scenarios;
pub mod sim;
