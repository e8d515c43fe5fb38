//! The interface between a harness and whatever runs it: the symbolic executor
//! (lsym gives every `byte()` a fresh symbolic variable) or the native replay
//! program (bytes come from a counterexample file).
extern "C" {
    fn lsym_byte() -> u8;
    fn lsym_assume(c: bool);
    fn lsym_check(c: bool, p: *const u8, n: usize);
    fn lsym_cover(p: *const u8, n: usize);
    fn lsym_allow_panic(p: *const u8, n: usize);
    fn lsym_reject() -> !;
    fn lsym_file(p: *const u8, n: usize, c: *const u8, m: usize);
    fn lsym_observe(p: *const u8, n: usize);
    fn lsym_concretize(v: u64) -> u64;
    fn lsym_fork(c: bool) -> bool;
}
/// A fresh symbolic byte.
pub fn byte() -> u8 {
    unsafe { lsym_byte() }
}
/// Restrict the explored inputs.
pub fn assume(c: bool) {
    unsafe { lsym_assume(c) }
}
/// The assertion: decided by the solver for every input reaching it.
pub fn check(c: bool, label: &str) {
    unsafe { lsym_check(c, label.as_ptr(), label.len()) }
}
/// A reachability marker (guards against vacuous passes).
pub fn cover(label: &str) {
    unsafe { lsym_cover(label.as_ptr(), label.len()) }
}
/// Panics whose message starts with this text are declared behaviour.
pub fn allow_panic(label: &str) {
    unsafe { lsym_allow_panic(label.as_ptr(), label.len()) }
}
/// This input is outside the harness' domain.
pub fn reject() -> ! {
    unsafe { lsym_reject() }
}
/// Create a file in the (virtual) working directory.
pub fn file(name: &str, content: &[u8]) {
    unsafe { lsym_file(name.as_ptr(), name.len(), content.as_ptr(), content.len()) }
}
/// Record a value for engine-versus-native comparison.
pub fn observe(s: &[u8]) {
    unsafe { lsym_observe(s.as_ptr(), s.len()) }
}
/// Split the exploration on every value of `v`.
pub fn concretize(v: u64) -> u64 {
    unsafe { lsym_concretize(v) }
}
/// Split the exploration on the truth of `c`.
pub fn fork(c: bool) -> bool {
    unsafe { lsym_fork(c) }
}
/// A symbolic byte restricted to an alphabet.
pub fn byte_in(alpha: &[u8]) -> u8 {
    let b = byte();
    let mut ok = false;
    for a in alpha {
        ok |= *a == b;
    }
    assume(ok);
    b
}
/// A symbolic number below `n` (explored value by value).
pub fn choose(n: u8) -> u8 {
    let b = byte();
    assume(b < n);
    concretize(b as u64) as u8
}
