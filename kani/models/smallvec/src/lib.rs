//! Kani-friendly model of smallvec: inline fixed-capacity storage, no spilling.
use core::mem::MaybeUninit;
use core::ops::{Deref,DerefMut};
pub const CAP: usize = 6;
pub unsafe trait Array { type Item; fn size()->usize; }
unsafe impl<T, const N: usize> Array for [T;N] { type Item=T; fn size()->usize{N} }
pub struct SmallVec<A: Array> { len: usize, buf: [MaybeUninit<A::Item>; CAP] }
impl<A:Array> Default for SmallVec<A>{fn default()->Self{Self::new()}}
impl<A: Array> SmallVec<A> {
  pub fn new()->Self { Self{len:0, buf: [const{MaybeUninit::uninit()};CAP]} }
  pub fn with_capacity(_:usize)->Self{Self::new()}
  pub fn from_vec(v:Vec<A::Item>)->Self{v.into_iter().collect()}
  pub fn from_slice(v:&[A::Item])->Self where A::Item:Copy{v.iter().copied().collect()}
  pub fn push(&mut self, x:A::Item){ assert!(self.len<CAP,"MODEL-CAP"); self.buf[self.len]=MaybeUninit::new(x); self.len+=1; }
  pub fn pop(&mut self)->Option<A::Item>{ if self.len==0 {None} else {self.len-=1; Some(unsafe{self.buf[self.len].assume_init_read()})} }
  pub fn insert(&mut self, i:usize, x:A::Item){ assert!(self.len<CAP,"MODEL-CAP"); assert!(i<=self.len);
     let mut j=self.len; while j>i { self.buf[j]=MaybeUninit::new(unsafe{self.buf[j-1].assume_init_read()}); j-=1; }
     self.buf[i]=MaybeUninit::new(x); self.len+=1; }
  pub fn remove(&mut self,i:usize)->A::Item{ assert!(i<self.len); let r=unsafe{self.buf[i].assume_init_read()}; let mut j=i; while j+1<self.len { self.buf[j]=MaybeUninit::new(unsafe{self.buf[j+1].assume_init_read()}); j+=1;} self.len-=1; r }
  pub fn truncate(&mut self,n:usize){ if n<self.len {self.len=n;} }
  pub fn clear(&mut self){self.len=0}
  pub fn len(&self)->usize{self.len}
  pub fn is_empty(&self)->bool{self.len==0}
  pub fn as_slice(&self)->&[A::Item]{self}
  pub fn retain(&mut self, mut f: impl FnMut(&mut A::Item)->bool){ let mut w=0; let mut r=0; while r<self.len { let keep=f(unsafe{self.buf[r].assume_init_mut()}); if keep { if w!=r { self.buf[w]=MaybeUninit::new(unsafe{self.buf[r].assume_init_read()}); } w+=1; } r+=1; } self.len=w; }
  pub fn extend_from_slice(&mut self,s:&[A::Item]) where A::Item:Copy{ for x in s {self.push(*x)} }
  pub fn drain(&mut self,r:impl core::ops::RangeBounds<usize>)->std::vec::IntoIter<A::Item>{ use core::ops::Bound::*; let s=match r.start_bound(){Included(a)=>*a,Excluded(a)=>*a+1,Unbounded=>0}; let e=match r.end_bound(){Included(a)=>*a+1,Excluded(a)=>*a,Unbounded=>self.len}; let mut v=Vec::new(); let mut k=s; while k<e {v.push(self.remove(s));k+=1;} v.into_iter() }
  pub fn into_vec(self)->Vec<A::Item>{ self.into_iter().collect() }
}
impl<A:Array> Deref for SmallVec<A>{type Target=[A::Item]; fn deref(&self)->&[A::Item]{ unsafe{core::slice::from_raw_parts(self.buf.as_ptr() as *const A::Item,self.len)} }}
impl<A:Array> DerefMut for SmallVec<A>{fn deref_mut(&mut self)->&mut [A::Item]{ unsafe{core::slice::from_raw_parts_mut(self.buf.as_mut_ptr() as *mut A::Item,self.len)} }}
impl<A:Array> AsRef<[A::Item]> for SmallVec<A>{fn as_ref(&self)->&[A::Item]{self}}
impl<A:Array> Clone for SmallVec<A> where A::Item:Clone { fn clone(&self)->Self{ let mut n=Self::new(); let mut i=0; while i<self.len { n.push(self[i].clone()); i+=1; } n } }
impl<A:Array> core::fmt::Debug for SmallVec<A> where A::Item: core::fmt::Debug { fn fmt(&self,f:&mut core::fmt::Formatter<'_>)->core::fmt::Result{self[..].fmt(f)} }
impl<A:Array,B:Array> PartialEq<SmallVec<B>> for SmallVec<A> where A::Item:PartialEq<B::Item>{fn eq(&self,o:&SmallVec<B>)->bool{ if self.len!=o.len {return false} let mut i=0; while i<self.len { if self[i]!=o[i] {return false} i+=1;} true }}
impl<A:Array> Eq for SmallVec<A> where A::Item:Eq{}
impl<A:Array> core::hash::Hash for SmallVec<A> where A::Item:core::hash::Hash{fn hash<H:core::hash::Hasher>(&self,h:&mut H){self[..].hash(h)}}
impl<A:Array> FromIterator<A::Item> for SmallVec<A>{fn from_iter<I:IntoIterator<Item=A::Item>>(i:I)->Self{let mut n=Self::new(); for x in i {n.push(x)} n}}
impl<A:Array> Extend<A::Item> for SmallVec<A>{fn extend<I:IntoIterator<Item=A::Item>>(&mut self,i:I){for x in i {self.push(x)}}}
impl<'a,A:Array> From<&'a [A::Item]> for SmallVec<A> where A::Item:Clone{fn from(s:&'a [A::Item])->Self{ let mut n=Self::new(); let mut i=0; while i<s.len() { n.push(s[i].clone()); i+=1; } n}}
impl<A:Array> From<Vec<A::Item>> for SmallVec<A>{fn from(s:Vec<A::Item>)->Self{s.into_iter().collect()}}
impl<T,const N:usize> From<[T;N]> for SmallVec<[T;N]>{fn from(s:[T;N])->Self{s.into_iter().collect()}}
pub struct IntoIter<A:Array>{v:SmallVec<A>,i:usize}
impl<A:Array> Iterator for IntoIter<A>{type Item=A::Item; fn next(&mut self)->Option<A::Item>{ if self.i<self.v.len {self.i+=1; Some(unsafe{self.v.buf[self.i-1].assume_init_read()})} else {None} } fn size_hint(&self)->(usize,Option<usize>){let n=self.v.len-self.i;(n,Some(n))}}
impl<A:Array> ExactSizeIterator for IntoIter<A>{}
impl<A:Array> DoubleEndedIterator for IntoIter<A>{fn next_back(&mut self)->Option<A::Item>{ if self.i<self.v.len {self.v.len-=1; Some(unsafe{self.v.buf[self.v.len].assume_init_read()})} else {None} }}
impl<A:Array> IntoIterator for SmallVec<A>{type Item=A::Item;type IntoIter=IntoIter<A>;fn into_iter(self)->IntoIter<A>{IntoIter{v:self,i:0}}}
impl<'a,A:Array> IntoIterator for &'a SmallVec<A>{type Item=&'a A::Item;type IntoIter=core::slice::Iter<'a,A::Item>;fn into_iter(self)->Self::IntoIter{self.iter()}}
impl<'a,A:Array> IntoIterator for &'a mut SmallVec<A>{type Item=&'a mut A::Item;type IntoIter=core::slice::IterMut<'a,A::Item>;fn into_iter(self)->Self::IntoIter{self.iter_mut()}}
#[macro_export] macro_rules! smallvec { () => {$crate::SmallVec::new()}; ($e:expr;$n:expr)=>{{let mut v=$crate::SmallVec::new(); for _ in 0..$n {v.push($e)} v}}; ($($x:expr),+ $(,)?) => {{ let mut v=$crate::SmallVec::new(); $(v.push($x);)+ v }}; }
pub trait ToSmallVec<A:Array>{fn to_smallvec(&self)->SmallVec<A>;}
impl<A:Array> ToSmallVec<A> for [A::Item] where A::Item:Copy{fn to_smallvec(&self)->SmallVec<A>{SmallVec::from_slice(self)}}

// ---- growable containers of `alloc`, modelled the same way (inline, bounded) -------------
pub const VCAP: usize = 20;
/// stands for alloc::vec::Vec
pub struct KVec<T> { len: usize, buf: [MaybeUninit<T>; VCAP] }
impl<T> KVec<T> {
  pub const fn new()->Self { Self{len:0, buf:[const{MaybeUninit::uninit()};VCAP]} }
  pub fn with_capacity(_:usize)->Self{Self::new()}
  pub fn push(&mut self,x:T){ assert!(self.len<VCAP,"MODEL-CAP"); self.buf[self.len]=MaybeUninit::new(x); self.len+=1; }
  pub fn pop(&mut self)->Option<T>{ if self.len==0 {None} else {self.len-=1; Some(unsafe{self.buf[self.len].assume_init_read()})} }
  pub fn insert(&mut self,i:usize,x:T){ assert!(i<=self.len && self.len<VCAP); let mut j=self.len; while j>i { self.buf[j]=MaybeUninit::new(unsafe{self.buf[j-1].assume_init_read()}); j-=1;} self.buf[i]=MaybeUninit::new(x); self.len+=1; }
  pub fn remove(&mut self,i:usize)->T{ assert!(i<self.len); let r=unsafe{self.buf[i].assume_init_read()}; let mut j=i; while j+1<self.len { self.buf[j]=MaybeUninit::new(unsafe{self.buf[j+1].assume_init_read()}); j+=1;} self.len-=1; r }
  pub fn truncate(&mut self,n:usize){ if n<self.len {self.len=n} }
  pub fn clear(&mut self){self.len=0}
  pub fn reserve(&mut self,_:usize){}
  pub fn len(&self)->usize{self.len}
  pub fn is_empty(&self)->bool{self.len==0}
  pub fn as_slice(&self)->&[T]{self}
  pub fn extend_from_slice(&mut self,s:&[T]) where T:Copy{ let mut i=0; while i<s.len() {self.push(s[i]);i+=1;} }
}
impl<T> Default for KVec<T>{fn default()->Self{Self::new()}}
impl<T> Deref for KVec<T>{type Target=[T]; fn deref(&self)->&[T]{unsafe{core::slice::from_raw_parts(self.buf.as_ptr() as *const T,self.len)}}}
impl<T> DerefMut for KVec<T>{fn deref_mut(&mut self)->&mut [T]{unsafe{core::slice::from_raw_parts_mut(self.buf.as_mut_ptr() as *mut T,self.len)}}}
impl<T> AsRef<[T]> for KVec<T>{fn as_ref(&self)->&[T]{self}}
impl<T> Extend<T> for KVec<T>{fn extend<I:IntoIterator<Item=T>>(&mut self,i:I){for x in i{self.push(x)}}}
/// stands for alloc::collections::VecDeque
pub struct KDeque<T> { v: SmallVec<[T;1]> }
impl<T> KDeque<T> {
  pub fn new()->Self{Self{v:SmallVec::new()}}
  pub fn with_capacity(_:usize)->Self{Self::new()}
  pub fn push_back(&mut self,x:T){self.v.push(x)}
  pub fn push_front(&mut self,x:T){self.v.insert(0,x)}
  pub fn pop_front(&mut self)->Option<T>{ if self.v.is_empty(){None}else{Some(self.v.remove(0))} }
  pub fn pop_back(&mut self)->Option<T>{ self.v.pop() }
  pub fn len(&self)->usize{self.v.len()}
  pub fn is_empty(&self)->bool{self.v.is_empty()}
  pub fn front(&self)->Option<&T>{self.v.first()}
  pub fn back(&self)->Option<&T>{self.v.last()}
  pub fn iter(&self)->core::slice::Iter<'_,T>{self.v.iter()}
  pub fn clear(&mut self){self.v.clear()}
}
impl<T> Default for KDeque<T>{fn default()->Self{Self::new()}}
