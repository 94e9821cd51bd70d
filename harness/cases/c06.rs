//! C06: see idx.rs.
use crate::vx_common::*;
#[path = "idx.rs"] mod idx;
pub struct P;
impl Prop for P {
    type Case = idx::Case;
    const NAME: &'static str = "c06";
    const RULE: &'static str = "histories of registrations of 1..14 (sometimes 1500, seldom 9000) different label sets of 1..12 labels (many derived from one another, values with separators, quotes, escapes and non-ASCII text, some of them thousands of bytes long), lookups and searches by subsets, supersets and near misses, failing index reads on the shared store, both back ends; non-trivial: a lookup after a registration";
    fn make(i: u64, r: &mut Rng) -> idx::Case { idx::make(i, r) }
    fn check(c: &idx::Case) -> Out { idx::check(c, 6) }
    fn shrink(c: &idx::Case) -> Vec<idx::Case> { idx::shrink(c) }
}
pub fn main() { run::<P>() }
