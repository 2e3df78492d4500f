//! Property-specific observation points.
use crate::lin::*;
use crate::val::*;


#[derive(Default)]
pub struct Hooks {
    /// content read from the filesystem -> position it was read at
    pub disk: HashMap<ContentId, Lin>,
}
impl Hooks {
    pub fn alloc_bound(&mut self, _st: &State, n: &Lin) -> B { B::ge(&Lin::k(1 << 32), n) }
}
