mod decl;
mod env;
mod p_decomp;
mod p_print;
mod text;
mod tree;

fn main() {
    let mut props = p_decomp::props();
    props.extend(p_print::props());
    props.sort_by_key(|p| p.id);
    pbt::main(props);
}
