//! Vocabulary shared by every analysed corpus: an opaque reader, opaque leaf
//! types and opaque "user expression" markers.  Their bodies are never
//! analysed; the engine interprets calls to them as events or pure terms.
#![cfg_attr(not(feature = "std"), no_std)]
#![feature(try_trait_v2)]
#![allow(unused, clippy::all)]
extern crate alloc;
use binread::io::{self, Read, Seek, SeekFrom};
use binread::{BinRead, BinResult, ReadOptions};
pub mod models;

/// The opaque reader.
pub struct Rdr(());
#[inline(never)]
fn opaque<T>() -> T {
    loop {}
}
impl Read for Rdr {
    #[inline(never)]
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        opaque()
    }
}
impl Seek for Rdr {
    #[inline(never)]
    fn seek(&mut self, _: SeekFrom) -> io::Result<u64> {
        opaque()
    }
}

/// Opaque leaf value, no arguments.
#[derive(Debug)]
pub struct L<const N: usize>(u8);
/// Opaque leaf value, with arguments of type `A`.
#[derive(Debug)]
pub struct LA<A, const N: usize>(A);

impl<const N: usize> Copy for L<N> {}
impl<const N: usize> Clone for L<N> {
    fn clone(&self) -> Self { *self }
}
impl<A: Copy, const N: usize> Copy for LA<A, N> {}
impl<A: Copy, const N: usize> Clone for LA<A, N> {
    fn clone(&self) -> Self { *self }
}
impl<const N: usize> Default for L<N> {
    #[inline(never)]
    fn default() -> Self { opaque() }
}
impl<A, const N: usize> Default for LA<A, N> {
    #[inline(never)]
    fn default() -> Self { opaque() }
}
impl<const N: usize> PartialEq for L<N> {
    #[inline(never)]
    fn eq(&self, _: &Self) -> bool { opaque() }
}
impl<A, const N: usize> PartialEq for LA<A, N> {
    #[inline(never)]
    fn eq(&self, _: &Self) -> bool { opaque() }
}
impl<const N: usize> BinRead for L<N> {
    type Args = ();
    #[inline(never)]
    fn read_options<R: Read + Seek>(_: &mut R, _: &ReadOptions, _: ()) -> BinResult<Self> { opaque() }
    #[inline(never)]
    fn after_parse<R: Read + Seek>(&mut self, _: &mut R, _: &ReadOptions, _: ()) -> BinResult<()> { opaque() }
}
impl<A: Copy + 'static, const N: usize> BinRead for LA<A, N> {
    type Args = A;
    #[inline(never)]
    fn read_options<R: Read + Seek>(_: &mut R, _: &ReadOptions, _: A) -> BinResult<Self> { opaque() }
    #[inline(never)]
    fn after_parse<R: Read + Seek>(&mut self, _: &mut R, _: &ReadOptions, _: A) -> BinResult<()> { opaque() }
}
/// Opaque pointer type for FilePtr.
pub struct Ptr(u32);
impl Copy for Ptr {}
impl Clone for Ptr { fn clone(&self) -> Self { *self } }
impl BinRead for Ptr {
    type Args = ();
    #[inline(never)]
    fn read_options<R: Read + Seek>(_: &mut R, _: &ReadOptions, _: ()) -> BinResult<Self> { opaque() }
}
impl binread::file_ptr::IntoSeekFrom for Ptr {
    #[inline(never)]
    fn into_seek_from(self) -> SeekFrom { opaque() }
}
/// Opaque collection.
pub struct Bag<T>(alloc::vec::Vec<T>);
impl<T> core::iter::FromIterator<T> for Bag<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        Bag(it.into_iter().collect())
    }
}
/// Opaque backing storage for cursors.
pub struct Data(u8);
impl AsRef<[u8]> for Data {
    #[inline(never)]
    fn as_ref(&self) -> &[u8] { opaque() }
}

/// Pure opaque user expressions (no effect, value depends on `N` and arguments only).
#[inline(never)]
pub fn pure0<T, const N: usize>() -> T { opaque() }
#[inline(never)]
pub fn pure1<T, A, const N: usize>(_: A) -> T { opaque() }
#[inline(never)]
pub fn pure2<T, A, B, const N: usize>(_: A, _: B) -> T { opaque() }
/// Effectful opaque user expressions: each evaluation is an event.
#[inline(never)]
pub fn ev0<T, const N: usize>() -> T { opaque() }
#[inline(never)]
pub fn ev1<T, A, const N: usize>(_: A) -> T { opaque() }
/// Custom parser leaf, usable with parse_with.
#[inline(never)]
pub fn parse<R: Read + Seek, T, A, const N: usize>(_: &mut R, _: &ReadOptions, _: A) -> BinResult<T> { opaque() }
