//! C14: runs of the real optimizer, see engines::opt.
fn main() {
    engines::optfam::main("C14");
}
