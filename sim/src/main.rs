mod bridge;
mod choice;
mod gen;
mod hooks;
mod kernel;
mod model;
mod ops;
mod runner;
mod srcdict;
mod scen;
mod sink;
mod sys;
mod threads;

fn main() {
    sys::fixed_addresses();
    std::process::exit(runner::main());
}
