//! The compiler as the game starts it: which files it reads, keeps and writes.

mod p_files;
mod p_report;
mod world;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(String::as_str) == Some("worker") {
        world::worker(&args[1..]);
    }
    let mut props = p_files::props();
    props.extend(p_report::props());
    pbt::main(props);
}
