// A miniature stand-in for the parts of FRAME the extracted functions use.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::rc::Rc;

thread_local! { pub static DB: RefCell<BTreeMap<(String, String), Rc<dyn Any>>> = RefCell::new(BTreeMap::new()); }
pub fn db_get<V: Clone + 'static>(n: &str, k: &dyn Debug) -> Option<V> {
	DB.with(|d| d.borrow().get(&(n.to_string(), format!("{:?}", k))).map(|v| v.downcast_ref::<V>().expect("type").clone()))
}
pub fn db_put<V: Clone + 'static>(n: &str, k: &dyn Debug, v: V) {
	DB.with(|d| { d.borrow_mut().insert((n.to_string(), format!("{:?}", k)), Rc::new(v)); })
}
pub fn db_rm(n: &str, k: &dyn Debug) { DB.with(|d| { d.borrow_mut().remove(&(n.to_string(), format!("{:?}", k))); }) }
pub fn db_reset() { DB.with(|d| d.borrow_mut().clear()) }
pub fn db_count(n: &str) -> usize { DB.with(|d| d.borrow().keys().filter(|k| k.0 == n).count()) }
pub fn transactional<R, E>(f: impl FnOnce() -> Result<R, E>) -> Result<R, E> {
	let snap = DB.with(|d| d.borrow().clone());
	let r = f();
	if r.is_err() { DB.with(|d| *d.borrow_mut() = snap); }
	r
}
// ValueQuery ($v) or OptionQuery (opt $v) maps and values; keys are compared by their Debug text
pub trait Unref { fn k(&self) -> String; }
pub struct Key<K: Debug>(pub K);
macro_rules! storage_map {
	($n:ident, opt $v:ty) => {
		pub struct $n<T>(PhantomData<T>);
		impl<T> $n<T> {
			pub fn get(k: impl Debug) -> Option<$v> { db_get::<$v>(stringify!($n), &k) }
			pub fn insert(k: impl Debug, v: impl Into<$v>) { let v: $v = v.into(); db_put(stringify!($n), &k, v) }
			pub fn remove(k: impl Debug) { db_rm(stringify!($n), &k) }
			pub fn take(k: impl Debug) -> Option<$v> { let r = Self::get(&k); db_rm(stringify!($n), &k); r }
			pub fn contains_key(k: impl Debug) -> bool { Self::get(k).is_some() }
			pub fn mutate<R>(k: impl Debug, f: impl FnOnce(&mut Option<$v>) -> R) -> R { let mut v = Self::get(&k); let r = f(&mut v); match v { Some(v) => db_put(stringify!($n), &k, v), None => db_rm(stringify!($n), &k) }; r }
			pub fn try_mutate<R, E>(k: impl Debug, f: impl FnOnce(&mut Option<$v>) -> Result<R, E>) -> Result<R, E> { let mut v = Self::get(&k); let r = f(&mut v)?; match v { Some(v) => db_put(stringify!($n), &k, v), None => db_rm(stringify!($n), &k) }; Ok(r) }
			pub fn try_mutate_exists<R, E>(k: impl Debug, f: impl FnOnce(&mut Option<$v>) -> Result<R, E>) -> Result<R, E> { Self::try_mutate(k, f) }
		}
	};
	($n:ident, $v:ty) => {
		pub struct $n<T>(PhantomData<T>);
		impl<T> $n<T> {
			pub fn get(k: impl Debug) -> $v { db_get::<$v>(stringify!($n), &k).unwrap_or_default() }
			pub fn set(k: impl Debug, v: $v) { db_put(stringify!($n), &k, v) }
			pub fn try_get(k: impl Debug) -> Result<$v, ()> { db_get::<$v>(stringify!($n), &k).ok_or(()) }
			pub fn insert(k: impl Debug, v: impl Into<$v>) { let v: $v = v.into(); db_put(stringify!($n), &k, v) }
			pub fn remove(k: impl Debug) { db_rm(stringify!($n), &k) }
			pub fn take(k: impl Debug) -> $v { let r = Self::get(&k); db_rm(stringify!($n), &k); r }
			pub fn contains_key(k: impl Debug) -> bool { db_get::<$v>(stringify!($n), &k).is_some() }
			pub fn mutate<R>(k: impl Debug, f: impl FnOnce(&mut $v) -> R) -> R { let mut v = Self::get(&k); let r = f(&mut v); db_put(stringify!($n), &k, v); r }
			pub fn try_mutate<R, E>(k: impl Debug, f: impl FnOnce(&mut $v) -> Result<R, E>) -> Result<R, E> { let mut v = Self::get(&k); let r = f(&mut v)?; db_put(stringify!($n), &k, v); Ok(r) }
			pub fn mutate_exists<R>(k: impl Debug, f: impl FnOnce(&mut Option<$v>) -> R) -> R { let mut v = db_get::<$v>(stringify!($n), &k); let r = f(&mut v); match v { Some(v) => db_put(stringify!($n), &k, v), None => db_rm(stringify!($n), &k) }; r }
			pub fn try_mutate_exists<R, E>(k: impl Debug, f: impl FnOnce(&mut Option<$v>) -> Result<R, E>) -> Result<R, E> { let mut v = db_get::<$v>(stringify!($n), &k); let r = f(&mut v)?; match v { Some(v) => db_put(stringify!($n), &k, v), None => db_rm(stringify!($n), &k) }; Ok(r) }
		}
	};
}
macro_rules! storage_value {
	($n:ident, opt $v:ty) => {
		pub struct $n<T>(PhantomData<T>);
		impl<T> $n<T> {
			pub fn get() -> Option<$v> { db_get::<$v>(stringify!($n), &()) }
			pub fn put(v: impl Into<$v>) { let v: $v = v.into(); db_put(stringify!($n), &(), v) }
			pub fn set(v: Option<$v>) { match v { Some(v) => db_put(stringify!($n), &(), v), None => db_rm(stringify!($n), &()) } }
			pub fn kill() { db_rm(stringify!($n), &()) }
			pub fn exists() -> bool { Self::get().is_some() }
			pub fn take() -> Option<$v> { let r = Self::get(); Self::kill(); r }
		}
	};
	($n:ident, $v:ty) => {
		pub struct $n<T>(PhantomData<T>);
		impl<T> $n<T> {
			pub fn get() -> $v { db_get::<$v>(stringify!($n), &()).unwrap_or_default() }
			pub fn put(v: impl Into<$v>) { let v: $v = v.into(); db_put(stringify!($n), &(), v) }
			pub fn set(v: $v) { db_put(stringify!($n), &(), v) }
			pub fn kill() { db_rm(stringify!($n), &()) }
			pub fn take() -> $v { let r = Self::get(); Self::kill(); r }
			pub fn mutate<R>(f: impl FnOnce(&mut $v) -> R) -> R { let mut v = Self::get(); let r = f(&mut v); Self::put(v); r }
			pub fn try_mutate<R, E>(f: impl FnOnce(&mut $v) -> Result<R, E>) -> Result<R, E> { let mut v = Self::get(); let r = f(&mut v)?; Self::put(v); Ok(r) }
		}
	};
}
macro_rules! ensure { ($c:expr, $e:expr $(,)?) => { if !$c { return Err($e.into()); } }; }

pub trait Get<V> { fn get() -> V; }
#[derive(Clone, Copy, Debug, PartialEq, Default, Eq, PartialOrd, Ord)]
pub struct ConstU32<const N: u32>;
impl<const N: u32> Get<u32> for ConstU32<N> { fn get() -> u32 { N } }

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct BoundedVec<X, S>(pub Vec<X>, pub PhantomData<S>);
impl<X: Clone, S> Clone for BoundedVec<X, S> { fn clone(&self) -> Self { BoundedVec(self.0.clone(), PhantomData) } }
impl<X, S> Default for BoundedVec<X, S> { fn default() -> Self { BoundedVec(vec![], PhantomData) } }
impl<X, S> Deref for BoundedVec<X, S> { type Target = Vec<X>; fn deref(&self) -> &Vec<X> { &self.0 } }
impl<X, S: Get<u32>> BoundedVec<X, S> {
	pub fn new() -> Self { BoundedVec(vec![], PhantomData) }
	pub fn try_push(&mut self, x: X) -> Result<(), X> { if self.0.len() < S::get() as usize { self.0.push(x); Ok(()) } else { Err(x) } }
	pub fn try_insert(&mut self, i: usize, x: X) -> Result<(), X> { if self.0.len() < S::get() as usize { self.0.insert(i, x); Ok(()) } else { Err(x) } }
	pub fn try_extend(&mut self, it: impl Iterator<Item = X>) -> Result<(), ()> { for x in it { self.try_push(x).map_err(|_| ())?; } Ok(()) }
	pub fn force_from(v: Vec<X>, _w: Option<&str>) -> Self { BoundedVec(v, PhantomData) }
	pub fn force_push(&mut self, x: X) { self.0.truncate(S::get() as usize - 1); self.0.push(x) }
	pub fn truncate_from(mut v: Vec<X>) -> Self { v.truncate(S::get() as usize); BoundedVec(v, PhantomData) }
	pub fn into_inner(self) -> Vec<X> { self.0 }
	pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, X> { self.0.iter_mut() }
	pub fn retain(&mut self, f: impl FnMut(&X) -> bool) { self.0.retain(f) }
	pub fn remove(&mut self, i: usize) -> X { self.0.remove(i) }
	pub fn swap_remove(&mut self, i: usize) -> X { self.0.swap_remove(i) }
	pub fn drain(&mut self, r: impl std::ops::RangeBounds<usize>) -> std::vec::Drain<'_, X> { self.0.drain(r) }
	pub fn clear(&mut self) { self.0.clear() }
	pub fn pop(&mut self) -> Option<X> { self.0.pop() }
	pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
	pub fn bound() -> usize { S::get() as usize }
	pub fn into_iter(self) -> std::vec::IntoIter<X> { self.0.into_iter() }
	pub fn get_mut(&mut self, i: usize) -> Option<&mut X> { self.0.get_mut(i) }
	pub fn sort(&mut self) where X: Ord { self.0.sort() }
}
impl<X, S: Get<u32>> TryFrom<Vec<X>> for BoundedVec<X, S> { type Error = (); fn try_from(v: Vec<X>) -> Result<Self, ()> { if v.len() <= S::get() as usize { Ok(BoundedVec(v, PhantomData)) } else { Err(()) } } }
impl<X, S> IntoIterator for BoundedVec<X, S> { type Item = X; type IntoIter = std::vec::IntoIter<X>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, X, S> IntoIterator for &'a BoundedVec<X, S> { type Item = &'a X; type IntoIter = std::slice::Iter<'a, X>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<X, S> std::ops::Index<usize> for BoundedVec<X, S> { type Output = X; fn index(&self, i: usize) -> &X { &self.0[i] } }
impl<X, S> std::ops::IndexMut<usize> for BoundedVec<X, S> { fn index_mut(&mut self, i: usize) -> &mut X { &mut self.0[i] } }
pub type WeakBoundedVec<X, S> = BoundedVec<X, S>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default, PartialOrd)]
pub struct Weight(pub u64);
impl Weight {
	pub fn zero() -> Self { Weight(0) }
	pub fn saturating_add(self, o: Weight) -> Weight { Weight(self.0.saturating_add(o.0)) }
	pub fn saturating_sub(self, o: Weight) -> Weight { Weight(self.0.saturating_sub(o.0)) }
	pub fn saturating_mul(self, o: u64) -> Weight { Weight(self.0.saturating_mul(o)) }
	pub fn mul(self, o: u64) -> Weight { Weight(self.0 * o) }
	pub fn ref_time(&self) -> u64 { self.0 }
	pub fn all_lte(self, o: Weight) -> bool { self.0 <= o.0 }
	pub fn any_gt(self, o: Weight) -> bool { self.0 > o.0 }
	pub fn all_gt(self, o: Weight) -> bool { self.0 > o.0 }
	pub fn any_lt(self, o: Weight) -> bool { self.0 < o.0 }
	pub fn from_parts(a: u64, _: u64) -> Weight { Weight(a) }
}
impl std::ops::Add for Weight { type Output = Weight; fn add(self, o: Weight) -> Weight { Weight(self.0 + o.0) } }
impl std::ops::AddAssign for Weight { fn add_assign(&mut self, o: Weight) { self.0 += o.0 } }
impl std::ops::Mul<u64> for Weight { type Output = Weight; fn mul(self, o: u64) -> Weight { Weight(self.0 * o) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct RtDbWeight;
impl RtDbWeight {
	pub fn reads(&self, n: u64) -> Weight { Weight(25 * n) }
	pub fn writes(&self, n: u64) -> Weight { Weight(100 * n) }
	pub fn reads_writes(&self, r: u64, w: u64) -> Weight { Weight(25 * r + 100 * w) }
}
pub struct DbW;
impl Get<RtDbWeight> for DbW { fn get() -> RtDbWeight { RtDbWeight } }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DispatchError(pub String);
pub type DispatchResult = Result<(), DispatchError>;
pub type WeightedDispatchResult = Result<Weight, (Weight, DispatchError)>;
impl From<&str> for DispatchError { fn from(s: &str) -> Self { DispatchError(s.to_string()) } }
#[derive(Clone, Debug, PartialEq)]
pub enum ArithmeticError { Overflow, Underflow, DivisionByZero }
impl From<ArithmeticError> for DispatchError { fn from(e: ArithmeticError) -> Self { DispatchError(format!("{:?}", e)) } }
pub trait Zero: Sized { fn zero() -> Self; fn is_zero(&self) -> bool; }
pub trait One { fn one() -> Self; }
macro_rules! ints { ($($t:ty)*) => { $( impl Zero for $t { fn zero() -> Self { 0 } fn is_zero(&self) -> bool { *self == 0 } } impl One for $t { fn one() -> Self { 1 } } )* } }
ints!(u8 u16 u32 u64 u128 usize);
pub trait SaturatedConversion: Sized { fn saturated_into<X: TryFrom<Self>>(self) -> X where X: Bounded { X::try_from(self).unwrap_or(X::max_value()) } }
pub trait Bounded { fn max_value() -> Self; }
macro_rules! bd { ($($t:ty)*) => { $( impl Bounded for $t { fn max_value() -> Self { <$t>::MAX } } impl SaturatedConversion for $t {} )* } }
bd!(u8 u16 u32 u64 u128 usize);
pub type Balance = u128;
pub type AssetId = u32;
pub type CollectionUuid = u32;
pub type SerialNumber = u32;
pub type TokenId = (CollectionUuid, SerialNumber);
pub type TokenCount = u32;

pub enum Error<T> {
//@ERRORS
	__P(PhantomData<T>),
}
impl<T> From<Error<T>> for DispatchError { fn from(_: Error<T>) -> Self { DispatchError("pallet error".into()) } }
pub struct Pallet<T>(PhantomData<T>);
pub fn fail(m: &str) -> ! { eprintln!("FAIL: {m}"); std::process::exit(1) }
macro_rules! want { ($c:expr, $m:expr) => { if !($c) { fail($m); } } }
