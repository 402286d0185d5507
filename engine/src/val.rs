//! Values of the symbolic machine.
use crate::term::*;
use std::rc::Rc;

/// `I`: concrete bits (at most 64), `S`: symbolic (or more than 64 bits wide),
/// `A`: aggregate or vector.
#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    S(E),
    A(Rc<Vec<V>>),
}
impl V {
    pub fn int(&self) -> u64 {
        match self {
            V::I(x) => *x,
            V::S(e) => t().cval(*e).expect("concrete value expected"),
            _ => panic!("aggregate where an integer is expected"),
        }
    }
    pub fn e(&self, w: u16) -> E {
        match self {
            V::I(x) => t().con(*x, w),
            V::S(e) => *e,
            _ => panic!("aggregate where a term is expected"),
        }
    }
}
pub fn vt(e: E) -> V {
    match t().cval(e) {
        Some(x) => V::I(x),
        None => V::S(e),
    }
}
