//! Small models of the library types the r1cs reader and writer use: fixed capacities, a file in memory, numbers of NB bytes.
use core::mem::MaybeUninit;
use core::ops::{Deref, DerefMut};
pub const NB: usize = 32;
pub const FCAP: usize = 4096;
pub const BYTES: usize = 160;
pub const ITEMS: usize = 8;
pub const TRIPLES: usize = 3;
pub const KEYS: usize = 6;

pub trait Elem: Sized { type Arr; const CAP: usize; }
impl Elem for u8 { type Arr = [MaybeUninit<u8>; BYTES]; const CAP: usize = BYTES; }
impl Elem for usize { type Arr = [MaybeUninit<usize>; ITEMS]; const CAP: usize = ITEMS; }
impl Elem for BigInt { type Arr = [MaybeUninit<BigInt>; 3]; const CAP: usize = 3; }
impl<'a, T> Elem for &'a T { type Arr = [MaybeUninit<&'a T>; ITEMS]; const CAP: usize = ITEMS; }
impl<A, B> Elem for (A, B) { type Arr = [MaybeUninit<(A, B)>; 3]; const CAP: usize = 3; }
impl<A, B, C> Elem for (A, B, C) { type Arr = [MaybeUninit<(A, B, C)>; TRIPLES]; const CAP: usize = TRIPLES; }

pub struct Vec<T: Elem> { a: MaybeUninit<T::Arr>, n: usize }
impl<T: Elem> Vec<T> {
    pub fn new() -> Self { Vec { a: MaybeUninit::uninit(), n: 0 } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn reserve(&mut self, _: usize) {}
    pub fn len(&self) -> usize { self.n }
    pub fn is_empty(&self) -> bool { self.n == 0 }
    pub fn push(&mut self, x: T) {
        crate::must(self.n < T::CAP);
        unsafe { (self.a.as_mut_ptr() as *mut T).add(self.n).write(x) };
        self.n += 1;
    }
    pub fn take_(&self, i: usize) -> T { unsafe { (self.a.as_ptr() as *const T).add(i).read() } }
    pub fn iter(&self) -> core::slice::Iter<'_, T> { (**self).iter() }
    pub fn as_slice(&self) -> &[T] { self }
    pub fn capacity(&self) -> usize { T::CAP }
    pub fn clear(&mut self) { self.n = 0; }
    pub fn truncate(&mut self, n: usize) { if n < self.n { self.n = n; } }
    pub fn pop(&mut self) -> Option<T> { if self.n == 0 { None } else { self.n -= 1; Some(self.take_(self.n)) } }
    pub fn append(&mut self, o: &mut Vec<T>) { let mut i = 0; while i < o.n { self.push(o.take_(i)); i += 1; } o.n = 0; }
    pub fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for x in it { self.push(x); } }
    pub fn insert(&mut self, k: usize, x: T) { self.push(x); let mut i = self.n - 1; while i > k { self.swap(i, i - 1); i -= 1; } }
    pub fn remove(&mut self, k: usize) -> T { let mut i = k; while i + 1 < self.n { self.swap(i, i + 1); i += 1; } self.n -= 1; self.take_(self.n) }
}
impl<T: Elem + Copy> Vec<T> {
    pub fn repeat_(x: T, n: usize) -> Self { let mut v = Self::new(); let mut i = 0; while i < n { v.push(x); i += 1; } v }
    pub fn extend_from_slice(&mut self, s: &[T]) { let mut i = 0; while i < s.len() { self.push(s[i]); i += 1; } }
    pub fn resize(&mut self, n: usize, x: T) { while self.n < n { self.push(x); } self.n = n; }
}
impl<T: Elem> Default for Vec<T> { fn default() -> Self { Self::new() } }
impl<T: Elem + Copy, const N: usize> From<[T; N]> for Vec<T> { fn from(a: [T; N]) -> Self { let mut v = Self::new(); let mut i = 0; while i < N { v.push(a[i]); i += 1; } v } }
impl<T: Elem + Copy> From<&[T]> for Vec<T> { fn from(a: &[T]) -> Self { let mut v = Self::new(); v.extend_from_slice(a); v } }
impl<T: Elem + Ord> Vec<T> {
    pub fn sort_unstable(&mut self) { self.sort() }
    pub fn sort(&mut self) { let mut i = 1; while i < self.n { let mut j = i; while j > 0 && self[j] < self[j - 1] { self.swap(j, j - 1); j -= 1; } i += 1; } }
}
impl<T: Elem> Deref for Vec<T> { type Target = [T]; fn deref(&self) -> &[T] { unsafe { core::slice::from_raw_parts(self.a.as_ptr() as *const T, self.n) } } }
impl<T: Elem> DerefMut for Vec<T> { fn deref_mut(&mut self) -> &mut [T] { unsafe { core::slice::from_raw_parts_mut(self.a.as_mut_ptr() as *mut T, self.n) } } }
impl<T: Elem> AsRef<[T]> for Vec<T> { fn as_ref(&self) -> &[T] { self } }
impl<T: Elem + Clone> Clone for Vec<T> { fn clone(&self) -> Self { let mut v = Self::new(); let mut i = 0; while i < self.n { v.push(self[i].clone()); i += 1; } v } }
impl<T: Elem + PartialEq> PartialEq for Vec<T> { fn eq(&self, o: &Self) -> bool { same(self, o) } }
impl<T: Elem + PartialEq> PartialEq<&[T]> for Vec<T> { fn eq(&self, o: &&[T]) -> bool { same(self, o) } }
impl<T: Elem + PartialEq> PartialEq<[T]> for Vec<T> { fn eq(&self, o: &[T]) -> bool { same(self, o) } }
fn same<T: PartialEq>(a: &[T], b: &[T]) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }
impl Eq for Vec<u8> {}
impl PartialOrd for Vec<u8> { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Vec<u8> {
    fn cmp(&self, o: &Self) -> core::cmp::Ordering {
        let mut i = 0;
        while i < self.n && i < o.n { if self[i] != o[i] { return self[i].cmp(&o[i]); } i += 1; }
        self.n.cmp(&o.n)
    }
}
impl core::hash::Hash for Vec<u8> { fn hash<H: core::hash::Hasher>(&self, _: &mut H) {} }
pub struct IntoIter<T: Elem> { v: Vec<T>, i: usize }
impl<T: Elem> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { if self.i < self.v.n { self.i += 1; Some(self.v.take_(self.i - 1)) } else { None } } }
impl<T: Elem> IntoIterator for Vec<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter { v: self, i: 0 } } }
impl<'a, T: Elem> IntoIterator for &'a Vec<T> { type Item = &'a T; type IntoIter = core::slice::Iter<'a, T>; fn into_iter(self) -> core::slice::Iter<'a, T> { (**self).iter() } }
impl<T: Elem> FromIterator<T> for Vec<T> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut v = Self::new(); for x in it { v.push(x); } v } }
pub trait SliceExt { fn to_vec_(&self) -> Vec<u8>; }
impl SliceExt for [u8] { fn to_vec_(&self) -> Vec<u8> { let mut v = Vec::new(); v.extend_from_slice(self); v } }
#[macro_export]
macro_rules! vec_ { () => { $crate::model::Vec::new() }; ($x:expr; $n:expr) => { $crate::model::Vec::repeat_($x, $n) }; ($($x:expr),+ $(,)?) => {{ let mut v = $crate::model::Vec::new(); $(v.push($x);)+ v }} }

#[derive(Clone)]
pub struct String(pub Vec<u8>);
#[derive(Debug)]
pub struct Utf8Error;
impl String {
    pub fn new() -> Self { String(Vec::new()) }
    pub fn as_bytes(&self) -> &[u8] { &self.0 }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn bytes(&self) -> core::iter::Copied<core::slice::Iter<'_, u8>> { self.0.iter().copied() }
    pub fn into_bytes(self) -> Vec<u8> { self.0 }
    pub fn is_empty(&self) -> bool { self.0.len() == 0 }
    pub fn from_utf8(v: Vec<u8>) -> Result<String, Utf8Error> { Ok(String(v)) }
}
impl core::fmt::Display for String { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
pub trait ToString_ { fn to_string_(&self) -> String; }
impl<T: ?Sized> ToString_ for T { fn to_string_(&self) -> String { String::new() } }

/// insertion order stands for the arbitrary order of the real one
pub struct HashMap<K, V> { e: [Option<(K, V)>; KEYS], n: usize }
impl<K: PartialEq, V> HashMap<K, V> {
    pub fn new() -> Self { HashMap { e: [const { None }; KEYS], n: 0 } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn len(&self) -> usize { self.n }
    pub fn is_empty(&self) -> bool { self.n == 0 }
    fn pos(&self, k: &K) -> usize { let mut i = 0; while i < self.n { if let Some((q, _)) = &self.e[i] { if q == k { return i; } } i += 1; } KEYS }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let i = self.pos(&k);
        if i < KEYS { self.e[i] = Some((k, v)); return None; }
        crate::must(self.n < KEYS);
        self.e[self.n] = Some((k, v));
        self.n += 1;
        None
    }
    pub fn get(&self, k: &K) -> Option<&V> { let i = self.pos(k); if i < KEYS { self.e[i].as_ref().map(|x| &x.1) } else { None } }
    pub fn get_key_value(&self, k: &K) -> Option<(&K, &V)> { let i = self.pos(k); if i < KEYS { self.e[i].as_ref().map(|x| (&x.0, &x.1)) } else { None } }
    pub fn contains_key(&self, k: &K) -> bool { self.pos(k) < KEYS }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> { let i = self.pos(k); if i < KEYS { self.e[i].as_mut().map(|x| &mut x.1) } else { None } }
    pub fn values(&self) -> Values<'_, K, V> { Values { m: self, i: 0 } }
    pub fn reserve(&mut self, _: usize) {}
    pub fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } }
    pub fn keys(&self) -> Keys<'_, K, V> { Keys { m: self, i: 0 } }
    pub fn iter(&self) -> Iter<'_, K, V> { Iter { m: self, i: 0 } }
}
impl<K: PartialEq, V> Default for HashMap<K, V> { fn default() -> Self { Self::new() } }
impl<K: PartialEq, V> FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::new(); m.extend(it); m } }
pub struct Values<'a, K, V> { m: &'a HashMap<K, V>, i: usize }
impl<'a, K, V> Iterator for Values<'a, K, V> { type Item = &'a V; fn next(&mut self) -> Option<&'a V> { if self.i < self.m.n { self.i += 1; self.m.e[self.i - 1].as_ref().map(|x| &x.1) } else { None } } }
pub struct Keys<'a, K, V> { m: &'a HashMap<K, V>, i: usize }
impl<'a, K, V> Iterator for Keys<'a, K, V> { type Item = &'a K; fn next(&mut self) -> Option<&'a K> { if self.i < self.m.n { self.i += 1; self.m.e[self.i - 1].as_ref().map(|x| &x.0) } else { None } } }
pub struct Iter<'a, K, V> { m: &'a HashMap<K, V>, i: usize }
impl<'a, K, V> Iterator for Iter<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<(&'a K, &'a V)> { if self.i < self.m.n { self.i += 1; self.m.e[self.i - 1].as_ref().map(|x| (&x.0, &x.1)) } else { None } } }
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { Iter { m: self, i: 0 } } }
pub struct MapIntoIter<K, V> { m: HashMap<K, V>, i: usize }
impl<K, V> Iterator for MapIntoIter<K, V> { type Item = (K, V); fn next(&mut self) -> Option<(K, V)> { if self.i < self.m.n { self.i += 1; self.m.e[self.i - 1].take() } else { None } } }
impl<K, V> IntoIterator for HashMap<K, V> { type Item = (K, V); type IntoIter = MapIntoIter<K, V>; fn into_iter(self) -> MapIntoIter<K, V> { MapIntoIter { m: self, i: 0 } } }

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Sign { Minus, NoSign, Plus }
/// a natural number of at most NB bytes
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct BigInt([u8; NB]);
impl BigInt {
    pub fn from_bytes_le(_: Sign, b: &[u8]) -> BigInt {
        let mut r = [0u8; NB];
        let mut i = 0;
        while i < b.len() { if i < NB { r[i] = b[i]; } else { crate::must(b[i] == 0); } i += 1; }
        BigInt(r)
    }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
        let mut n = NB;
        while n > 1 && self.0[n - 1] == 0 { n -= 1; }
        let mut v = Vec::new();
        let mut i = 0;
        while i < n { v.push(self.0[i]); i += 1; }
        (if n == 1 && self.0[0] == 0 { Sign::NoSign } else { Sign::Plus }, v)
    }
    pub fn to_usize(&self) -> Option<usize> { self.to_u64().map(|x| x as usize) }
    pub fn to_u32(&self) -> Option<u32> { match self.to_u64() { Some(x) if x < 1 << 32 => Some(x as u32), _ => None } }
    pub fn to_u64(&self) -> Option<u64> {
        let (mut r, mut i) = (0u64, 0);
        while i < NB { if i < 8 { r |= (self.0[i] as u64) << (8 * i); } else if self.0[i] != 0 { return None; } i += 1; }
        Some(r)
    }
}
impl From<u64> for BigInt { fn from(x: u64) -> BigInt { let mut r = [0u8; NB]; let mut i = 0; while i < 8 && i < NB { r[i] = (x >> (8 * i)) as u8; i += 1; } BigInt(r) } }
impl From<usize> for BigInt { fn from(x: usize) -> BigInt { BigInt::from(x as u64) } }
impl From<u32> for BigInt { fn from(x: u32) -> BigInt { BigInt::from(x as u64) } }
impl From<u8> for BigInt { fn from(x: u8) -> BigInt { BigInt::from(x as u64) } }
impl From<i32> for BigInt { fn from(x: i32) -> BigInt { BigInt::from(x as u64) } }
pub trait ToPrimitive { fn to_u64(&self) -> Option<u64>; fn to_usize(&self) -> Option<usize>; fn to_u32(&self) -> Option<u32>; }
impl ToPrimitive for usize { fn to_u64(&self) -> Option<u64> { Some(*self as u64) } fn to_usize(&self) -> Option<usize> { Some(*self) } fn to_u32(&self) -> Option<u32> { Some(*self as u32) } }

static mut DATA: [u8; FCAP] = [0; FCAP];
static mut LEN: usize = 0;
#[derive(Debug)]
pub struct IoError;
#[derive(Debug, Clone, Copy)]
pub enum ErrorKind { Other, InvalidData, UnexpectedEof }
impl IoError { pub fn other<T>(_: T) -> IoError { IoError }
    pub fn new<T>(_: ErrorKind, _: T) -> IoError { IoError } }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub struct File;
impl File {
    pub fn create<T>(_: T) -> Result<File, IoError> { unsafe { LEN = 0 }; Ok(File) }
    pub fn open<T>(_: T) -> Result<File, IoError> { Ok(File) }
}
pub struct BufWriter<F> { pos: usize, _f: F }
pub struct BufReader<F> { pos: usize, _f: F }
impl<F> BufWriter<F> { pub fn new(f: F) -> Self { BufWriter { pos: 0, _f: f } } }
impl<F> BufReader<F> { pub fn new(f: F) -> Self { BufReader { pos: 0, _f: f } } }
pub trait Write { fn write_all(&mut self, b: &[u8]) -> Result<(), IoError>; fn write(&mut self, b: &[u8]) -> Result<usize, IoError>; fn flush(&mut self) -> Result<(), IoError>; }
pub trait Read { fn read_exact(&mut self, b: &mut [u8]) -> Result<(), IoError>; }
pub trait Seek {
    fn seek(&mut self, p: SeekFrom) -> Result<u64, IoError>;
    fn stream_position(&mut self) -> Result<u64, IoError> { self.seek(SeekFrom::Current(0)) }
    fn rewind(&mut self) -> Result<(), IoError> { self.seek(SeekFrom::Start(0))?; Ok(()) }
}
impl<F> Write for BufWriter<F> {
    fn write_all(&mut self, b: &[u8]) -> Result<(), IoError> {
        let mut i = 0;
        while i < b.len() { crate::must(self.pos < FCAP); unsafe { DATA[self.pos] = b[i]; } self.pos += 1; i += 1; }
        unsafe { if self.pos > LEN { LEN = self.pos; } }
        Ok(())
    }
    fn write(&mut self, b: &[u8]) -> Result<usize, IoError> { self.write_all(b)?; Ok(b.len()) }
    fn flush(&mut self) -> Result<(), IoError> { Ok(()) }
}
impl<F> Read for BufReader<F> {
    fn read_exact(&mut self, b: &mut [u8]) -> Result<(), IoError> {
        if self.pos + b.len() > unsafe { LEN } { return Err(IoError); }
        let mut i = 0;
        while i < b.len() { b[i] = unsafe { DATA[self.pos] }; self.pos += 1; i += 1; }
        Ok(())
    }
}
fn moved(pos: usize, p: SeekFrom) -> Result<usize, IoError> {
    let q = match p { SeekFrom::Start(x) => x as i64, SeekFrom::Current(d) => pos as i64 + d, SeekFrom::End(d) => unsafe { LEN as i64 + d } };
    if q < 0 { Err(IoError) } else { Ok(q as usize) }
}
impl<F> Seek for BufWriter<F> { fn seek(&mut self, p: SeekFrom) -> Result<u64, IoError> { self.pos = moved(self.pos, p)?; Ok(self.pos as u64) } }
impl<F> Seek for BufReader<F> { fn seek(&mut self, p: SeekFrom) -> Result<u64, IoError> { self.pos = moved(self.pos, p)?; Ok(self.pos as u64) } }

pub mod std {
    pub use core::{cmp, convert, fmt, hash, iter, mem, ops, option, result, slice, str};
    pub mod collections { pub use crate::model::HashMap; }
    pub mod fs { pub use crate::model::File; }
    pub mod io { pub use crate::model::{BufReader, BufWriter, ErrorKind, IoError as Error, Read, Seek, SeekFrom, Write}; pub type Result<T> = core::result::Result<T, Error>; }
}
pub mod circom_algebra {
    pub mod num_bigint { pub use crate::model::{BigInt, Sign}; }
    pub mod num_traits { pub use crate::model::ToPrimitive; }
}
pub mod prelude {
    pub use core::prelude::v1::*;
    pub use core::iter::FromIterator;
    pub use crate::model::{circom_algebra, std, SliceExt, String, ToString_, Vec};
    pub use crate::vec_ as vec;
    pub use core::{assert, assert_eq, panic, unreachable, write, matches};
}
