//! Hosted model checker: exhaustive exploration of the real parser in a controlled environment.
extern crate alloc;
#[macro_use]
#[allow(dead_code)]
mod eng;
mod host;
mod lanes;

#[global_allocator]
static MEMORY: eng::env::memory::Counting = eng::env::memory::Counting;

fn main() {
    std::process::exit(host::main());
}
