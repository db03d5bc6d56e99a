//! Reference definitions, in plain Rust, of library routines whose implementations are
//! pointer-level code. The analyser interprets these instead of the library bodies.
//! Each takes the generic arguments of the routine it stands for, in the same order.
#![feature(try_trait_v2, allocator_api)]
#![allow(clippy::all)]
use std::alloc::Allocator;
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::hash::{BuildHasher, Hash};
use std::ops::Try;

pub mod vm;

// ------------------------------------------------------------------ iterator consumers
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn iter_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    R::from_output(acc)
}
pub fn iter_try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Try<Output = ()>>(it: &mut I, mut f: F) -> R {
    while let Some(x) = it.next() {
        f(x)?;
    }
    R::from_output(())
}
pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        let r = f(x);
        if r.is_some() {
            return r;
        }
    }
    None
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0usize;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut i = 0usize;
    while let Some(_) = it.next() {
        i += 1;
    }
    i
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}
pub fn iter_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut k = n;
    while k > 0 {
        it.next()?;
        k -= 1;
    }
    it.next()
}
pub fn iter_partition<I: Iterator, B: Default + Extend<I::Item>, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (B, B) {
    let mut a = B::default();
    let mut b = B::default();
    while let Some(x) = it.next() {
        if f(&x) {
            a.extend(Some(x));
        } else {
            b.extend(Some(x));
        }
    }
    (a, b)
}
pub fn iter_zip<I: Iterator, U: IntoIterator>(it: I, u: U) -> std::iter::Zip<I, U::IntoIter> {
    vm::mkzip(it, u.into_iter())
}
pub fn iter_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() {
        acc = f(acc, x);
    }
    acc
}
pub fn iter_rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_try_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next_back() {
        acc = f(acc, x)?;
    }
    R::from_output(acc)
}
pub fn iter_rposition<I: ExactSizeIterator + DoubleEndedIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() {
        i -= 1;
        if p(x) {
            return Some(i);
        }
    }
    None
}

// ------------------------------------------------------------------ collections
pub fn vec_from_iter<V, A, I: IntoIterator<Item = A>>(i: I) -> Vec<A> {
    let mut it = i.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn boxed_from_iter<V, A, I: IntoIterator<Item = A>>(i: I) -> Box<[A]> {
    let mut it = i.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    vm::mkbox(v)
}
pub trait MapLike {
    type K;
    type V;
    fn empty() -> Self;
    fn put(&mut self, k: Self::K, v: Self::V);
}
impl<K: Eq + Hash, V, S: BuildHasher + Default> MapLike for HashMap<K, V, S> {
    type K = K;
    type V = V;
    fn empty() -> Self {
        Self::default()
    }
    fn put(&mut self, k: K, v: V) {
        self.insert(k, v);
    }
}
pub trait SetLike {
    type K;
    fn empty() -> Self;
    fn put(&mut self, k: Self::K);
}
impl<K: Eq + Hash, S: BuildHasher + Default> SetLike for HashSet<K, S> {
    type K = K;
    fn empty() -> Self {
        Self::default()
    }
    fn put(&mut self, k: K) {
        self.insert(k);
    }
}
pub fn map_from_iter<M: MapLike, A, I: IntoIterator<Item = (M::K, M::V)>>(i: I) -> M {
    let mut it = i.into_iter();
    let mut m = M::empty();
    while let Some((k, v)) = it.next() {
        m.put(k, v);
    }
    m
}
pub fn set_from_iter<M: SetLike, A, I: IntoIterator<Item = M::K>>(i: I) -> M {
    let mut it = i.into_iter();
    let mut m = M::empty();
    while let Some(k) = it.next() {
        m.put(k);
    }
    m
}
pub fn map_extend<M: MapLike, A, I: IntoIterator<Item = (M::K, M::V)>>(m: &mut M, i: I) {
    let mut it = i.into_iter();
    while let Some((k, v)) = it.next() {
        m.put(k, v);
    }
}
pub fn set_extend<M: SetLike, A, I: IntoIterator<Item = M::K>>(m: &mut M, i: I) {
    let mut it = i.into_iter();
    while let Some(k) = it.next() {
        m.put(k);
    }
}
pub fn vec_extend<V: VecLike, A, I: IntoIterator<Item = V::E>>(v: &mut V, i: I) {
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.vec().push(x);
    }
}
pub fn vec_extend_ref<'a, V: VecLike, A, I: IntoIterator<Item = &'a V::E>>(v: &mut V, i: I)
where
    V::E: Copy + 'a,
{
    let mut it = i.into_iter();
    while let Some(x) = it.next() {
        v.vec().push(*x);
    }
}
pub trait VecLike {
    type E;
    fn vec(&mut self) -> &mut Vec<Self::E>;
}
impl<T> VecLike for Vec<T> {
    type E = T;
    fn vec(&mut self) -> &mut Vec<T> {
        self
    }
}
pub fn vec_extend_from_slice<T: Clone, A: Allocator>(v: &mut Vec<T, A>, s: &[T]) {
    let mut i = 0;
    while i < s.len() {
        v.push(s[i].clone());
        i += 1;
    }
}
pub fn vec_retain<T, A: Allocator, F: FnMut(&T) -> bool>(v: &mut Vec<T, A>, mut f: F) {
    let n = v.len();
    let mut out: Vec<T> = Vec::new();
    let mut i = 0;
    while i < n {
        let x = vm::read(v, i);
        if f(&x) {
            out.push(x);
        }
        i += 1;
    }
    vm::assign(v, out);
}
pub fn vec_retain_mut<T, A: Allocator, F: FnMut(&mut T) -> bool>(v: &mut Vec<T, A>, mut f: F) {
    let n = v.len();
    let mut out: Vec<T> = Vec::new();
    let mut i = 0;
    while i < n {
        let mut x = vm::read(v, i);
        if f(&mut x) {
            out.push(x);
        }
        i += 1;
    }
    vm::assign(v, out);
}

// ------------------------------------------------------------------ slices
pub fn slice_partition_point<T, P: FnMut(&T) -> bool>(s: &[T], mut p: P) -> usize {
    let n = s.len();
    if vm::exact() && n > 8 {
        let (mut lo, mut hi) = (0, n);
        while lo < hi {
            let mid = (lo + hi) / 2;
            if p(&s[mid]) {
                lo = mid + 1;
            } else {
                hi = mid;
            }
        }
        return lo;
    }
    let r = vm::pick(n + 1);
    if r > 0 {
        vm::assume(p(&s[r - 1]));
    }
    if r < n {
        vm::assume(!p(&s[r]));
    }
    r
}
pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    let mut i = 0;
    while i < s.len() {
        if s[i] == *x {
            return true;
        }
        i += 1;
    }
    false
}
pub fn slice_starts_with<T: PartialEq>(s: &[T], x: &[T]) -> bool {
    if x.len() > s.len() {
        return false;
    }
    let mut i = 0;
    while i < x.len() {
        if s[i] != x[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn slice_ends_with<T: PartialEq>(s: &[T], x: &[T]) -> bool {
    if x.len() > s.len() {
        return false;
    }
    let o = s.len() - x.len();
    let mut i = 0;
    while i < x.len() {
        if s[o + i] != x[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub trait Seq {
    type E;
    fn sl(&self) -> &[Self::E];
}
impl<T> Seq for [T] {
    type E = T;
    fn sl(&self) -> &[T] {
        self
    }
}
impl<T, A: Allocator> Seq for Vec<T, A> {
    type E = T;
    fn sl(&self) -> &[T] {
        self
    }
}
impl<T, const N: usize> Seq for [T; N] {
    type E = T;
    fn sl(&self) -> &[T] {
        self
    }
}
impl<S: Seq + ?Sized> Seq for &S {
    type E = S::E;
    fn sl(&self) -> &[S::E] {
        (**self).sl()
    }
}
impl<S: Seq + ?Sized> Seq for &mut S {
    type E = S::E;
    fn sl(&self) -> &[S::E] {
        (**self).sl()
    }
}
fn seq_eq<A, B>(a: &[A], b: &[B]) -> bool
where
    A: PartialEq<B>,
{
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
pub fn slice_eq<A: Seq + ?Sized, B: Seq + ?Sized>(a: &A, b: &B) -> bool
where
    A::E: PartialEq<B::E>,
{
    seq_eq(a.sl(), b.sl())
}
pub fn slice_ne<A: Seq + ?Sized, B: Seq + ?Sized>(a: &A, b: &B) -> bool
where
    A::E: PartialEq<B::E>,
{
    !seq_eq(a.sl(), b.sl())
}
pub fn list_sort_by<T, F: FnMut(&T, &T) -> Ordering>(s: &mut [T], mut f: F) {
    let n = s.len();
    let mut i = 1;
    while i < n {
        let mut j = i;
        while j > 0 && matches!(f(&s[j - 1], &s[j]), Ordering::Greater) {
            let a = vm::read(s, j - 1);
            let b = vm::read(s, j);
            vm::write(s, j - 1, b);
            vm::write(s, j, a);
            j -= 1;
        }
        i += 1;
    }
}
pub fn list_sort<T: Ord>(s: &mut [T]) {
    list_sort_by(s, |a: &T, b: &T| a.cmp(b))
}
pub fn list_sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) {
    list_sort_by(s, |a: &T, b: &T| f(a).cmp(&f(b)))
}

// ------------------------------------------------------------------ rand
pub struct Wi<X> {
    pub n: usize,
    pub w: Vec<X>,
}
#[derive(Debug)]
pub enum WiErr {
    NoItem,
    InvalidWeight,
    AllWeightsZero,
}
pub fn wi_new<X: Default + PartialOrd + Copy, I: IntoIterator>(i: I) -> Result<Wi<X>, WiErr>
where
    I::Item: WLike<X>,
{
    let mut n = 0usize;
    let mut pos = false;
    let zero = X::default();
    let mut w: Vec<X> = Vec::new();
    if vm::watched() {
        w = i.into_iter().map(|x| x.w()).collect();
        for x in w.iter() {
            if !(*x >= zero) {
                return Err(WiErr::InvalidWeight);
            }
            if *x > zero {
                pos = true;
            }
        }
        n = w.len();
    } else {
        let mut it = i.into_iter();
        while let Some(x) = it.next() {
            let x = x.w();
            if !(x >= zero) {
                return Err(WiErr::InvalidWeight);
            }
            if x > zero {
                pos = true;
            }
            n += 1;
        }
    }
    if n == 0 {
        return Err(WiErr::NoItem);
    }
    if !pos {
        return Err(WiErr::AllWeightsZero);
    }
    Ok(Wi { n, w })
}
pub trait WLike<X> {
    fn w(self) -> X;
}
impl<X> WLike<X> for X {
    fn w(self) -> X {
        self
    }
}
impl<X: Copy> WLike<X> for &X {
    fn w(self) -> X {
        *self
    }
}
pub fn wi_sample<D, T, R: rand::RngCore + ?Sized>(d: &Wi<f32>, rng: &mut R) -> usize {
    rng.next_u32();
    let k = vm::pick(d.n);
    if vm::watched() {
        let o = vm::watcher::<vm::Draw<f32>>();
        o.times += 1;
        o.w = d.w.clone();
        o.k = k;
    }
    k
}
pub fn rng_gen_range<R: rand::RngCore + ?Sized, T, G: RangeLike<T>>(rng: &mut R, g: G) -> T {
    rng.next_u32();
    g.any()
}
pub trait RangeLike<T> {
    fn any(self) -> T;
}
impl RangeLike<usize> for std::ops::Range<usize> {
    fn any(self) -> usize {
        let r = vm::any_usize();
        vm::assume(r >= self.start && r < self.end);
        if vm::watched() {
            // a draw of a position is one with equal weights
            let o = vm::watcher::<vm::Draw<f32>>();
            o.times += 1;
            o.w = Vec::new();
            for _ in self.start..self.end {
                o.w.push(1.0);
            }
            o.k = r - self.start;
        }
        r
    }
}
impl RangeLike<u32> for std::ops::Range<u32> {
    fn any(self) -> u32 {
        let r = vm::any_u32();
        vm::assume(r >= self.start && r < self.end);
        r
    }
}
impl RangeLike<f32> for std::ops::Range<f32> {
    fn any(self) -> f32 {
        let r = vm::any_f32();
        vm::assume(r >= self.start && r < self.end);
        r
    }
}
