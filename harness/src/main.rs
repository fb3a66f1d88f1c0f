mod ctx;
mod doc;
mod driver;
mod generate;
mod io;
mod mem;
mod model;
mod pbf;
mod props;
mod rt;
mod sched;
mod simfs;
mod sxml;
mod tape;

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

fn main() {
    std::process::exit(driver::main());
}
