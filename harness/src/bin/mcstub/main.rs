mod stub;
mod c12;
mod c13;
mod c14;
mod c24;
fn main() {
    mcfw::fake::main_if_fake();
    let defs = vec![c12::def(), c13::def(), c14::def(), c24::def()];
    std::process::exit(mcfw::fw::main_with(&defs));
}
