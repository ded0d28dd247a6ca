//! Plain-loop equivalents of standard library iterator methods, substituted for
//! the (unsafe, specialised) originals when the analyser meets a call to them.
use crate::intr::{field_mut, mkzip, takefield};
use std::iter::{FlatMap, Flatten, Zip};

// ---- consuming methods
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(it: I, f: F) { each(it, f) }
fn each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn for_each_flat_map<I: Iterator, U: IntoIterator, G: FnMut(I::Item) -> U, F: FnMut(U::Item)>(it: FlatMap<I, U, G>, mut f: F) {
    // a fresh FlatMap: inner = FlattenCompat { iter: Fuse(Map { iter, f }), front: None, back: None }
    let mut g: G = takefield(&it, "f");
    let mut i: I = takefield(&it, "iter");
    while let Some(x) = i.next() {
        let mut j = g(x).into_iter();
        while let Some(y) = j.next() { f(y); }
    }
}
pub fn for_each_flatten<I: Iterator, F: FnMut(<I::Item as IntoIterator>::Item)>(it: Flatten<I>, mut f: F) where I::Item: IntoIterator {
    let mut i: I = takefield(&it, "0");
    while let Some(x) = i.next() {
        let mut j = x.into_iter();
        while let Some(y) = j.next() { f(y); }
    }
}
pub fn for_each_map<I: Iterator, G, F>(it: std::iter::Map<I, G>, mut f: F) where G: Mapp<I::Item>, F: FnMut(G::B) {
    let mut g: G = takefield(&it, "f");
    let i: I = takefield(&it, "iter");
    i.for_each(|x| f(g.go(x)));
}
pub trait Mapp<X> { type B; fn go(&mut self, x: X) -> Self::B; }
impl<X, B, F: FnMut(X) -> B> Mapp<X> for F { type B = B; fn go(&mut self, x: X) -> B { self(x) } }
pub fn for_each_copied<I: Iterator, F>(it: std::iter::Copied<I>, mut f: F)
where I::Item: std::ops::Deref, <I::Item as std::ops::Deref>::Target: Copy, F: FnMut(<I::Item as std::ops::Deref>::Target) {
    let i: I = takefield(&it, "it");
    i.for_each(|x| f(*x));
}
pub fn for_each_cloned<I: Iterator, F>(it: std::iter::Cloned<I>, mut f: F)
where I::Item: std::ops::Deref, <I::Item as std::ops::Deref>::Target: Clone, F: FnMut(<I::Item as std::ops::Deref>::Target) {
    let i: I = takefield(&it, "it");
    i.for_each(|x| f((*x).clone()));
}
pub fn for_each_chain<A: Iterator, B: Iterator<Item = A::Item>, F: FnMut(A::Item)>(it: std::iter::Chain<A, B>, mut f: F) {
    let a: Option<A> = takefield(&it, "a");
    let b: Option<B> = takefield(&it, "b");
    if let Some(a) = a { a.for_each(&mut f); }
    if let Some(b) = b { b.for_each(&mut f); }
}
pub fn for_each_skip<I: Iterator, F: FnMut(I::Item)>(it: std::iter::Skip<I>, f: F) {
    let n: usize = takefield(&it, "n");
    let mut i: I = takefield(&it, "iter");
    let mut j = 0;
    while j < n { if i.next().is_none() { return; } j += 1; }
    i.for_each(f);
}
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut b = init;
    while let Some(x) = it.next() { b = f(b, x); }
    b
}
pub fn rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut b = init;
    while let Some(x) = it.next_back() { b = f(b, x); }
    b
}
pub fn reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut b = it.next()?;
    while let Some(x) = it.next() { b = f(b, x); }
    Some(b)
}
pub trait Tri { type O; type E; fn split(self) -> Result<Self::O, Self::E>; fn ok(o: Self::O) -> Self; fn err(e: Self::E) -> Self; }
impl<T, E> Tri for Result<T, E> { type O = T; type E = E; fn split(self) -> Result<T, E> { self } fn ok(o: T) -> Self { Ok(o) } fn err(e: E) -> Self { Err(e) } }
impl<T> Tri for Option<T> { type O = T; type E = (); fn split(self) -> Result<T, ()> { match self { Some(x) => Ok(x), None => Err(()) } } fn ok(o: T) -> Self { Some(o) } fn err(e: ()) -> Self { None } }
impl<B, C> Tri for std::ops::ControlFlow<B, C> { type O = C; type E = B; fn split(self) -> Result<C, B> { match self { std::ops::ControlFlow::Continue(x) => Ok(x), std::ops::ControlFlow::Break(b) => Err(b) } } fn ok(o: C) -> Self { std::ops::ControlFlow::Continue(o) } fn err(e: B) -> Self { std::ops::ControlFlow::Break(e) } }
pub fn try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Tri<O = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut b = init;
    while let Some(x) = it.next() {
        match f(b, x).split() { Ok(y) => b = y, Err(e) => return R::err(e) }
    }
    R::ok(b)
}
pub fn try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Tri<O = ()>>(it: &mut I, mut f: F) -> R {
    while let Some(x) = it.next() {
        match f(x).split() { Ok(()) => {}, Err(e) => return R::err(e) }
    }
    R::ok(())
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
pub fn rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next_back() { if f(&x) { return Some(x); } }
    None
}
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; }
    None
}
pub fn rposition<I: ExactSizeIterator + DoubleEndedIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() { i -= 1; if f(x) { return Some(i); } }
    None
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1; }
    n
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() { l = Some(x); }
    l
}
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0;
    while i < n { it.next()?; i += 1; }
    it.next()
}
pub fn filter_next<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut std::iter::Filter<I, P>) -> Option<I::Item> {
    loop {
        let x = field_mut::<_, I>(it, "iter").next()?;
        if field_mut::<_, P>(it, "predicate")(&x) { return Some(x); }
    }
}
pub fn filter_map_next<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: &mut std::iter::FilterMap<I, F>) -> Option<B> {
    loop {
        let x = field_mut::<_, I>(it, "iter").next()?;
        if let Some(y) = field_mut::<_, F>(it, "f")(x) { return Some(y); }
    }
}
pub fn for_each_filter<I: Iterator, P: FnMut(&I::Item) -> bool, F: FnMut(I::Item)>(it: std::iter::Filter<I, P>, mut f: F) {
    let mut p: P = takefield(&it, "predicate");
    let mut i: I = takefield(&it, "iter");
    while let Some(x) = i.next() { if p(&x) { f(x); } }
}
pub fn for_each_filter_map<I: Iterator, G, F>(it: std::iter::FilterMap<I, G>, mut f: F) where G: FMap<I::Item>, F: FnMut(G::B) {
    let mut g: G = takefield(&it, "f");
    let mut i: I = takefield(&it, "iter");
    while let Some(x) = i.next() { if let Some(y) = g.go(x) { f(y); } }
}
pub trait FMap<X> { type B; fn go(&mut self, x: X) -> Option<Self::B>; }
impl<X, B, F: FnMut(X) -> Option<B>> FMap<X> for F { type B = B; fn go(&mut self, x: X) -> Option<B> { self(x) } }
pub fn count_filter<I: Iterator, P: FnMut(&I::Item) -> bool>(it: std::iter::Filter<I, P>) -> usize {
    let mut n = 0;
    let mut p: P = takefield(&it, "predicate");
    let mut i: I = takefield(&it, "iter");
    while let Some(x) = i.next() { if p(&x) { n += 1; } }
    n
}
pub fn fold_filter<I: Iterator, P: FnMut(&I::Item) -> bool, B, F: FnMut(B, I::Item) -> B>(it: std::iter::Filter<I, P>, init: B, mut f: F) -> B {
    let mut b = init;
    let mut p: P = takefield(&it, "predicate");
    let mut i: I = takefield(&it, "iter");
    while let Some(x) = i.next() { if p(&x) { b = f(b, x); } }
    b
}

// ---- zip
pub fn zip<I: Iterator, U: IntoIterator>(a: I, b: U) -> Zip<I, U::IntoIter> { mkzip(a, b.into_iter()) }
pub fn zip2<A: IntoIterator, B: IntoIterator>(a: A, b: B) -> Zip<A::IntoIter, B::IntoIter> { mkzip(a.into_iter(), b.into_iter()) }
pub fn zip_next<A: Iterator, B: Iterator>(z: &mut Zip<A, B>) -> Option<(A::Item, B::Item)> {
    let x = field_mut::<_, A>(z, "a").next()?;
    let y = field_mut::<_, B>(z, "b").next()?;
    Some((x, y))
}

// ---- collecting
pub fn vec_from_iter<T, Al, A, I: IntoIterator<Item = T>>(i: I) -> Vec<T> {
    let mut v = Vec::new();
    Iterator::for_each(i.into_iter(), |x| v.push(x));
    v
}
pub trait Elem<T> { fn elem(self) -> T; }
impl<T> Elem<T> for T { fn elem(self) -> T { self } }
impl<'a, T: Copy> Elem<T> for &'a T { fn elem(self) -> T { *self } }
pub fn vec_extend<T, Al, A: Elem<T>, I: IntoIterator<Item = A>>(v: &mut Vec<T>, i: I) {
    Iterator::for_each(i.into_iter(), |x| v.push(x.elem()));
}
pub trait Piece { fn put(self, s: &mut String); }
impl Piece for char { fn put(self, s: &mut String) { s.push(self) } }
impl<'a> Piece for &'a char { fn put(self, s: &mut String) { s.push(*self) } }
impl<'a> Piece for &'a str { fn put(self, s: &mut String) { s.push_str(self) } }
impl Piece for String { fn put(self, s: &mut String) { s.push_str(&self) } }
pub fn string_from_iter<A: Piece, I: IntoIterator<Item = A>>(i: I) -> String {
    let mut s = String::new();
    Iterator::for_each(i.into_iter(), |x| x.put(&mut s));
    s
}
pub fn string_extend<A: Piece, I: IntoIterator<Item = A>>(s: &mut String, i: I) {
    Iterator::for_each(i.into_iter(), |x| x.put(s));
}
pub struct Shunt<'a, I, E> { it: I, err: &'a mut Option<E> }
impl<'a, T, E, I: Iterator<Item = Result<T, E>>> Iterator for Shunt<'a, I, E> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.it.next() {
            Some(Ok(x)) => Some(x),
            Some(Err(e)) => { *self.err = Some(e); None }
            None => None,
        }
    }
}
pub struct OShunt<'a, I> { it: I, none: &'a mut bool }
impl<'a, T, I: Iterator<Item = Option<T>>> Iterator for OShunt<'a, I> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.it.next() {
            Some(Some(x)) => Some(x),
            Some(None) => { *self.none = true; None }
            None => None,
        }
    }
}
pub trait IsRes<E> { type T; }
impl<T, E> IsRes<E> for Result<T, E> { type T = T; }
pub trait IsOpt { type T; }
impl<T> IsOpt for Option<T> { type T = T; }
pub fn res_from_iter<V, E, A, I>(i: I) -> Result<V, E>
where A: IsRes<E>, V: FromIterator<A::T>, I: IntoIterator<Item = Result<A::T, E>> {
    let mut err = None;
    let v = V::from_iter(Shunt { it: i.into_iter(), err: &mut err });
    match err { Some(e) => Err(e), None => Ok(v) }
}
pub fn opt_from_iter<V, A, I>(i: I) -> Option<V>
where A: IsOpt, V: FromIterator<A::T>, I: IntoIterator<Item = Option<A::T>> {
    let mut none = false;
    let v = V::from_iter(OShunt { it: i.into_iter(), none: &mut none });
    if none { None } else { Some(v) }
}

// ---- in-place filtering of vectors
pub fn vec_dedup<T: PartialEq, A>(v: &mut Vec<T>) {
    let mut i = 1;
    while i < v.len() {
        if v[i] == v[i - 1] { v.remove(i); } else { i += 1; }
    }
}
pub fn vec_dedup_by<T, A, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut same: F) {
    let mut i = 1;
    while i < v.len() {
        let (a, b) = v.split_at_mut(i);
        if same(&mut b[0], &mut a[i - 1]) { v.remove(i); } else { i += 1; }
    }
}
pub fn vec_dedup_by_key<T, A, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut key: F) {
    let mut i = 1;
    while i < v.len() {
        let b = key(&mut v[i]);
        if b == key(&mut v[i - 1]) { v.remove(i); } else { i += 1; }
    }
}
pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut keep: F) {
    let mut i = 0;
    while i < v.len() {
        if keep(&v[i]) { i += 1; } else { v.remove(i); }
    }
}
pub fn vec_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut keep: F) {
    let mut i = 0;
    while i < v.len() {
        if keep(&mut v[i]) { i += 1; } else { v.remove(i); }
    }
}

// ---- keyed maps
use std::borrow::Borrow;
use std::collections::{btree_map, hash_map, BTreeMap, HashMap};
use std::hash::{BuildHasher, Hash};
pub fn hm_or_insert<'a, K, V, A>(e: hash_map::Entry<'a, K, V>, v: V) -> &'a mut V { match e { hash_map::Entry::Occupied(e) => e.into_mut(), hash_map::Entry::Vacant(e) => e.insert(v) } }
pub fn hm_or_insert_with<'a, K, V, A, F: FnOnce() -> V>(e: hash_map::Entry<'a, K, V>, f: F) -> &'a mut V { match e { hash_map::Entry::Occupied(e) => e.into_mut(), hash_map::Entry::Vacant(e) => e.insert(f()) } }
pub fn hm_or_insert_with_key<'a, K, V, A, F: FnOnce(&K) -> V>(e: hash_map::Entry<'a, K, V>, f: F) -> &'a mut V { match e { hash_map::Entry::Occupied(e) => e.into_mut(), hash_map::Entry::Vacant(e) => { let v = f(e.key()); e.insert(v) } } }
pub fn hm_or_default<'a, K, V: Default, A>(e: hash_map::Entry<'a, K, V>) -> &'a mut V { match e { hash_map::Entry::Occupied(e) => e.into_mut(), hash_map::Entry::Vacant(e) => e.insert(V::default()) } }
pub fn hm_and_modify<'a, K, V, A, F: FnOnce(&mut V)>(e: hash_map::Entry<'a, K, V>, f: F) -> hash_map::Entry<'a, K, V> { match e { hash_map::Entry::Occupied(mut e) => { f(e.get_mut()); hash_map::Entry::Occupied(e) } v => v } }
pub fn hm_index<K: Eq + Hash + Borrow<Q::Target>, V, S: BuildHasher, A, Q: std::ops::Deref>(m: &HashMap<K, V, S>, q: Q) -> &V where Q::Target: Eq + Hash { match m.get(&*q) { Some(v) => v, None => panic!() } }
pub fn bm_or_insert<'a, K: Ord, V, A>(e: btree_map::Entry<'a, K, V>, v: V) -> &'a mut V { match e { btree_map::Entry::Occupied(e) => e.into_mut(), btree_map::Entry::Vacant(e) => e.insert(v) } }
pub fn bm_or_insert_with<'a, K: Ord, V, A, F: FnOnce() -> V>(e: btree_map::Entry<'a, K, V>, f: F) -> &'a mut V { match e { btree_map::Entry::Occupied(e) => e.into_mut(), btree_map::Entry::Vacant(e) => e.insert(f()) } }
pub fn bm_or_default<'a, K: Ord, V: Default, A>(e: btree_map::Entry<'a, K, V>) -> &'a mut V { match e { btree_map::Entry::Occupied(e) => e.into_mut(), btree_map::Entry::Vacant(e) => e.insert(V::default()) } }
pub fn bm_and_modify<'a, K: Ord, V, A, F: FnOnce(&mut V)>(e: btree_map::Entry<'a, K, V>, f: F) -> btree_map::Entry<'a, K, V> { match e { btree_map::Entry::Occupied(mut e) => { f(e.get_mut()); btree_map::Entry::Occupied(e) } v => v } }
pub fn bm_index<K: Ord + Borrow<Q::Target>, V, A, Q: std::ops::Deref>(m: &BTreeMap<K, V>, q: Q) -> &V where Q::Target: Ord { match m.get(&*q) { Some(v) => v, None => panic!() } }
pub fn bm_from_iter<K: Ord, V, Al, A, I: IntoIterator<Item = (K, V)>>(i: I) -> BTreeMap<K, V> { let mut m = BTreeMap::new(); Iterator::for_each(i.into_iter(), |(k, v)| { m.insert(k, v); }); m }
pub fn hm_from_iter<K: Eq + Hash, V, S: BuildHasher + Default, Al, A, I: IntoIterator<Item = (K, V)>>(i: I) -> HashMap<K, V> { let mut m = HashMap::new(); Iterator::for_each(i.into_iter(), |(k, v)| { m.insert(k, v); }); m }
pub fn bm_extend<K: Ord, V, Al, A, I: IntoIterator<Item = (K, V)>>(m: &mut BTreeMap<K, V>, i: I) { Iterator::for_each(i.into_iter(), |(k, v)| { m.insert(k, v); }); }
pub fn bs_from_iter<K: Ord, Al, A, I: IntoIterator<Item = K>>(i: I) -> std::collections::BTreeSet<K> { let mut m = std::collections::BTreeSet::new(); Iterator::for_each(i.into_iter(), |k| { m.insert(k); }); m }

// ---- values computed once: the same as computing them each time
pub fn once_get_or_init<'a, T: 'a, F: FnOnce() -> T>(_o: &'a std::sync::OnceLock<T>, f: F) -> &'a T { Box::leak(Box::new(f())) }
