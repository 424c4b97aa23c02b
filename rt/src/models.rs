//! Equivalent, loop-shaped restatements of std functions whose real bodies go
//! through raw memory or specialisation.  The engine redirects calls here.
use core::iter::FromIterator;
use core::ops::{ControlFlow, FromResidual, Try};
use alloc::vec::Vec;

pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut it = it.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
/// the same, with the memory std reserves ahead of reading
pub fn vec_from_iter_alloc<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut it = it.into_iter();
    let mut v = Vec::with_capacity(it.size_hint().0);
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn vec_extend_alloc<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    v.reserve(it.size_hint().0);
    while let Some(x) = it.next() {
        v.push(x);
    }
}
struct Shunt<'a, I, E> {
    it: I,
    err: &'a mut Option<E>,
}
impl<'a, A, E, I: Iterator<Item = Result<A, E>>> Iterator for Shunt<'a, I, E> {
    type Item = A;
    fn next(&mut self) -> Option<A> {
        match self.it.next() {
            Some(Ok(x)) => Some(x),
            Some(Err(e)) => {
                *self.err = Some(e);
                None
            }
            None => None,
        }
    }
}
pub fn result_from_iter<A, E, V: FromIterator<A>, I: IntoIterator<Item = Result<A, E>>>(it: I) -> Result<V, E> {
    let mut err = None;
    let v: V = V::from_iter(Shunt { it: it.into_iter(), err: &mut err });
    match err {
        None => Ok(v),
        Some(e) => Err(e),
    }
}
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    R::from_output(acc)
}
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn zip_next<A: Iterator, B: Iterator>(a: &mut A, b: &mut B) -> Option<(A::Item, B::Item)> {
    let x = a.next()?;
    let y = b.next()?;
    Some((x, y))
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() {
        n += 1;
    }
    n
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() {
        l = Some(x);
    }
    l
}
pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut n = n;
    loop {
        let x = it.next()?;
        if n == 0 {
            return Some(x);
        }
        n -= 1;
    }
}
/// One byte from a byte iterator over any reader.
#[cfg(feature = "std")]
pub fn bytes_next<R: std::io::Read>(r: &mut R) -> Option<std::io::Result<u8>> {
    let mut b = [0u8; 1];
    loop {
        return match r.read(&mut b) {
            Ok(0) => None,
            Ok(_) => Some(Ok(b[0])),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(e) => Some(Err(e)),
        };
    }
}
/// array_init::try_array_init
pub fn try_array_init<Array, F, E, T, const N: usize>(mut f: F) -> Result<[T; N], E>
where
    F: FnMut(usize) -> Result<T, E>,
{
    let mut v: Vec<T> = Vec::new();
    let mut i = 0;
    while i < N {
        v.push(f(i)?);
        i += 1;
    }
    Ok(vec_to_array(v))
}
#[inline(never)]
pub fn vec_to_array<T, const N: usize>(_: Vec<T>) -> [T; N] {
    loop {}
}
#[inline(never)]
fn lazy_ref<L, T>(_: &'static L) -> &'static T {
    loop {}
}
/// the first use of a lazy static runs its initialiser
pub fn lazy_get<L, T, F: FnOnce() -> T>(l: &'static L, f: F) -> &'static T {
    let _ = f();
    lazy_ref(l)
}
