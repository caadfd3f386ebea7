mod core;
mod disk;
mod driver;
mod entropy;
mod exact;
mod generator;
mod hash;
mod hist;
mod lang;
mod load;
mod ops;
mod persist;
mod query;
mod regex;
mod rng;
mod scen;
mod shrink;
mod source;
mod sparse;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(driver::main(&args));
}
