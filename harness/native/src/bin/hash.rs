//! Native hashing harness: parameters, hashes, permutations.
fn main() {
    vnative::serve(|w| vnative::hashing::command(w))
}
