pub mod extra;
pub mod mo;
pub mod more;
pub mod po;
pub mod query;
pub mod sys;

use crate::mon::{Ctx, Outcome};
use crate::src::Src;

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Outcome;

pub struct Prop {
    pub id: &'static str,
    pub f: CaseFn,
    /// what makes a case count as non-trivial
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(po::props());
    v.extend(mo::props());
    v.extend(query::props());
    v.extend(sys::props());
    v.extend(more::props());
    v.extend(extra::props());
    v
}
