mod combos;
mod cost;
mod ctx;
mod disk;
mod driver;
mod exec;
mod gen;
mod geom;
mod item;
mod minimise;
mod replica;
mod rng;
mod scenario;
mod styles;

#[global_allocator]
static ALLOC: ctx::CountingAlloc = ctx::CountingAlloc;

fn main() {
    ctx::install_panic_hook();
    driver::main()
}
