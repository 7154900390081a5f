mod c19;
fn main() {
    mcfw::fake::main_if_fake();
    let defs = vec![c19::def()];
    std::process::exit(mcfw::fw::main_with(&defs));
}
