use mcfw::checks::*;
fn main() {
    mcfw::sys::init();
    mcfw::fake::main_if_fake();
    let defs = vec![c01::def(), c02::def(), c03::def(), c04::def(), c05::def(), c06::def(), c07::def(), c08::def(), c09::def(), c10::def(), c11::def(), c15::def(), c16::def(), c17::def(), c18::def(), c20::def(), c21::def(), c22::def(), c23::def(), c25::def(), c26::def(), c27::def(), c28::def(), c29::def()];
    std::process::exit(mcfw::fw::main_with(&defs));
}
