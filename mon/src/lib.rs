//! The monitors: runtime (`rt`), numerics and generators shared by them.
//! Every file of `src/bin` holds the oracles of one part of the library.
pub mod cli;
pub mod num;
pub mod rigid;
pub mod rng;
pub mod rt;

#[global_allocator]
static METER: rt::Meter = rt::Meter;

/// Runs a generic case function for one of f32/f64 x the given dimensions.
#[macro_export]
macro_rules! dispatch {
    ($c:expr, $f:ident, [$($n:literal),+]) => {{
        let dims = [$($n as usize),+];
        let n = *$c.rng.pick(&dims);
        let single = $c.rng.chance(1, 2);
        match n {
            $($n => if single { $f::<f32, $n>($c) } else { $f::<f64, $n>($c) },)+
            _ => unreachable!(),
        }
    }};
}
