//! The simulated systems, one per property.

use crate::runner::Scenario;

mod budget;
mod consensus;
mod merge;
mod optim;
mod persist;
mod session;
mod stream;
mod trio;
pub mod world;

pub fn all() -> Vec<&'static dyn Scenario> {
    vec![&stream::C01, &stream::C02, &stream::C03, &budget::C04, &consensus::C05, &consensus::C06, &consensus::C07, &consensus::C08, &optim::C09, &trio::C10, &persist::C11, &merge::C12, &session::C13]
}

pub fn find(id: &str) -> Option<&'static dyn Scenario> {
    all().into_iter().find(|s| s.id() == id)
}
