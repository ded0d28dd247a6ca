//! Intrinsics interpreted by the analyser; never executed.

/// The field of `x` called `name` (or, if there is none of that name, the only
/// field of type `F`).
pub fn field<'a, T, F>(x: &'a T, name: &'static str) -> &'a F {
    loop {}
}
pub fn field_mut<'a, T, F>(x: &'a mut T, name: &'static str) -> &'a mut F {
    loop {}
}
/// Length of the vector field `name` of `x`, whatever its element type.
pub fn vlen<T>(x: &T, name: &'static str) -> usize {
    loop {}
}
/// Is element `i` of the vector field `name` of the variant `var`?
pub fn vis<T>(x: &T, name: &'static str, i: usize, var: &'static str) -> bool {
    loop {}
}
/// Payload of element `i` of the vector field `name`, of variant `var`.
pub fn vget<'a, T, F>(x: &'a T, name: &'static str, i: usize, var: &'static str) -> &'a F {
    loop {}
}
/// Appends variant `var` with payload `v` to the vector field `name`.
pub fn vpush<T, F>(x: &mut T, name: &'static str, var: &'static str, v: F) {
    loop {}
}
/// Empties the vector field `name`.
pub fn vclear<T>(x: &mut T, name: &'static str) {
    loop {}
}
pub fn assume(c: bool) {
    if !c { loop {} }
}
/// The digest `alg` of `b`.
pub fn prim_hash(alg: &'static str, b: &[u8]) -> &'static [u8] {
    loop {}
}
/// Zip { a, b, .. }
pub fn mkzip<A, B>(a: A, b: B) -> std::iter::Zip<A, B> {
    loop {}
}
/// The field called `name`, at any depth of `x`, by value.
pub fn takefield<T, F>(x: &T, name: &'static str) -> F {
    loop {}
}
/// The network requests made so far.
pub struct Net(pub u8);
pub fn net() -> Net {
    loop {}
}
