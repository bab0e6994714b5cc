//! A run is a list of steps, each with its own seed, so that a step can be
//! dropped, or its faults switched off, without changing the others.
#[derive(Clone, Debug)]
pub struct Step {
    pub kind: u8,
    pub at: u64,
    pub seed: u64,
    pub fault: bool,
}
