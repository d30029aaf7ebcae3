pub mod features;
pub mod frames;
pub mod reference;

use cvsim::runner::Scenario;

pub fn all() -> Vec<&'static dyn Scenario> {
    vec![&features::C14, &features::C15, &features::C16]
}
pub fn find(id: &str) -> Option<&'static dyn Scenario> {
    all().into_iter().find(|s| s.id() == id)
}
