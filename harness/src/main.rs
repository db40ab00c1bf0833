mod alloc;
mod bits;
mod canvas;
mod container;
mod data;
mod drive;
mod enc;
mod entropy;
mod r#gen;
mod meta;
mod icc;
mod modular;
mod session;
mod checks;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    if std::env::var("LOUD").is_err() {
        drive::quiet_panics();
    }
    let a: Vec<String> = std::env::args().collect();
    checks::main(&a[1..]);
}
