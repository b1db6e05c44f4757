pub mod py_kdt;
pub mod py_lr;
