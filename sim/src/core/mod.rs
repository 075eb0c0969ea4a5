pub mod interpose;
pub mod mem;
pub mod net;
pub mod sched;
pub mod simfs;
