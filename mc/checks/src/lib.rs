//! Shared enumerators and reference models for the checks.
pub mod asm;
pub mod cells;
pub mod families;
pub mod sc;
pub mod poly;
pub mod pos;
pub mod fem;
pub mod mixed;
pub mod dist;
pub mod worlds;
pub mod geo;
