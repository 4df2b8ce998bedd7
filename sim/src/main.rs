mod comp;
mod core;
mod de;
mod gen;
mod io;
mod made;
mod mutate;
mod props;
mod refp;
mod rules;
mod runner;
mod sched;
mod scal;
mod ser;
mod show;
mod sess;
mod util;
mod wild;
mod y;

fn main() {
    std::process::exit(runner::main());
}
