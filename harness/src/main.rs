mod dh;
mod fx;
mod ov;
mod rl;
mod p;
#[global_allocator]
static A: vcore::alloc::Counting = vcore::alloc::Counting;
fn main() {
    std::process::exit(vcore::runner::main_with(p::ALL))
}
