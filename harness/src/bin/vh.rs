use vh::util::{main_with, CountingAlloc};

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

fn main() { std::process::exit(main_with(vh::checks())) }
