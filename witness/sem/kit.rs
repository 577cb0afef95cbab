// Shared building blocks of the analysed clients.
include!("probe.rs");
pub const MAKE: usize = 1;
pub const DROP: usize = 2;
pub const CLONE: usize = 3;
pub const NEXT: usize = 4;
pub const CALL: usize = 5;
pub const BIG: usize = 1 << 41;

/// A value with identity: reports its destruction and its duplication.
pub struct Tok(pub usize);
impl Drop for Tok {
    fn drop(&mut self) { event(DROP, self.0); }
}
impl Clone for Tok {
    fn clone(&self) -> Self { event(CLONE, self.0); Tok(self.0 + BIG) }
}
impl Default for Tok {
    fn default() -> Self { event(MAKE, 0); Tok(7) }
}
/// A user iterator of n tokens with identities base.. and an arbitrary size hint.
pub struct Src { pub i: usize, pub n: usize, pub base: usize, pub hint: usize }
impl Iterator for Src {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        if self.i < self.n {
            let t = self.base + self.i;
            self.i += 1;
            event(NEXT, t);
            Some(Tok(t))
        } else { event(NEXT, BIG); None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.hint, None) }
}
pub fn small() -> usize { let n = any(); assume(n <= 1 << 40); n }
pub fn below(n: usize) -> usize { let k = any(); assume(k < n); k }
/// Checks made on a side path, so that their case distinctions do not burden what follows.
macro_rules! aside { ($($t:tt)*) => { if any_bool() { $($t)* stop(); } } }
