mod alloc;
mod gen;
mod model;
mod ops;
mod p_bundle;
mod p_code;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let mut props = p_bundle::props();
    props.extend(p_code::props());
    props.sort_by_key(|p| p.id);
    pbt::main(props);
}
