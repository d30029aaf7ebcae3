pub mod entropy;
pub mod node;
pub mod session;
pub mod world;

use cvsim::runner::Scenario;

pub fn all() -> Vec<&'static dyn Scenario> {
    vec![&session::C17, &session::C18, &session::C19, &session::C20]
}
pub fn find(id: &str) -> Option<&'static dyn Scenario> {
    all().into_iter().find(|s| s.id() == id)
}
