//! Primitives of the specification language. The bodies are never executed: the analyser
//! interprets a call to one of these functions by name.
#![allow(unused_variables)]

pub fn any_usize() -> usize { loop {} }
pub fn any_u32() -> u32 { loop {} }
pub fn any_u64() -> u64 { loop {} }
pub fn any_i32() -> i32 { loop {} }
/// an arbitrary float other than NaN
pub fn any_f32() -> f32 { loop {} }
pub fn any_f64() -> f64 { loop {} }
/// an arbitrary float, NaN included
pub fn any_f32_nan() -> f32 { loop {} }
pub fn any_bool() -> bool { loop {} }
pub fn choose() -> bool { loop {} }
/// an arbitrary text
pub fn any_text() -> &'static str { loop {} }
/// an arbitrary non-empty text without blanks, ':' and '='
pub fn any_word() -> &'static str { loop {} }
/// an arbitrary text without surrounding blanks
pub fn any_str() -> &'static str { loop {} }
pub fn assume(c: bool) { loop {} }
/// an obligation: `c` has to hold in every state reaching this call
pub fn prove(c: bool, id: &str) { loop {} }
pub fn reached(id: &str) { loop {} }
/// a vector of arbitrary length with arbitrary elements
pub fn any_vec<T>() -> Vec<T> { loop {} }
pub fn any_vec_nan<T>() -> Vec<T> { loop {} }
pub fn any_vec_nonneg<T>() -> Vec<T> { loop {} }
/// an arbitrary index below `n`, followed individually through loops
pub fn skolem(n: usize) -> usize { loop {} }
/// an arbitrary index below `n`
pub fn pick(n: usize) -> usize { loop {} }
pub fn track<T>(v: &mut [T], i: usize) { loop {} }
pub fn origin<T>(x: &T, v: &[T]) -> Option<usize> { loop {} }
pub fn origin_u32<T>(x: &u32, v: &[T]) -> Option<usize> { loop {} }
/// a snapshot of the value
pub fn copy<T>(x: &T) -> T { loop {} }
/// are the two alike in every part? (unknown unless they clearly are)
pub fn same<T>(a: &T, b: &T) -> bool { loop {} }
pub fn same_f32(a: f32, b: f32) -> bool { loop {} }
/// syntactic: the value is the earlier one, not a recomputed one
pub fn stale(a: f32, b: f32) -> bool { loop {} }
pub fn read<T>(v: &[T], i: usize) -> T { loop {} }
pub fn write<T>(v: &mut [T], i: usize, x: T) { loop {} }
pub fn set_len<V>(v: &mut V, n: usize) { loop {} }
pub fn assign<X, Y>(d: &mut X, s: Y) { loop {} }
pub fn mkzip<A, B>(a: A, b: B) -> std::iter::Zip<A, B> { loop {} }
pub fn mkbox<X, Y>(a: X) -> Y { loop {} }
/// analysis runs in the alarm-refinement mode
pub fn exact() -> bool { loop {} }
/// how often the loops of this driver are followed in the exact phase
pub fn depth(n: usize) { loop {} }
pub fn note(m: &str) { loop {} }
pub fn show<T>(x: &T) { loop {} }
pub fn nonneg<T>(v: &[T], field: usize) { loop {} }
/// assumption: no element of `v[lo..hi]` has `x` as its first integer component
pub fn absent<T>(x: &u32, v: &[T], lo: usize, hi: usize) { loop {} }

/// where weighted draws are recorded
pub fn watch<T>(w: &mut T) { loop {} }
pub fn watched() -> bool { loop {} }
pub fn watcher<T>() -> &'static mut T { loop {} }
/// a weighted draw: how often one was made, the weights and the position of the last
pub struct Draw<X> {
    pub times: u32,
    pub w: Vec<X>,
    pub k: usize,
}
