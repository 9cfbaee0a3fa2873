//! The two programs, run as they are run by a user.

mod p_cli;
#[allow(dead_code)]
#[path = "../../scc/src/world.rs"]
mod world;
#[allow(dead_code)]
#[path = "../../scc/src/p_files.rs"]
mod p_files;

fn main() {
    pbt::main(p_cli::props());
}
