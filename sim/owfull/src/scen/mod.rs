mod listener;
pub mod check;
pub mod load;
pub mod rt;
pub mod world;
