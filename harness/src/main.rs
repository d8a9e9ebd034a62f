mod common;
mod eng;
mod fmt;
mod goals_basic;
mod goals_ext;
mod goals_matrix;
mod goals_round;
mod poly;
mod rat;
mod round;
mod runner;
mod scalar;
mod sym;
mod z3;
fn main() {
    runner::main();
}
