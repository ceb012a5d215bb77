// Effect dispatch: extend and lookup on evidence of any size, after any history (C01).
use vstd::prelude::*;
verus! {
#[derive(Clone, Copy)]
//@item crates/tribute-runtime/src/lib.rs struct Marker
//@item crates/tribute-runtime/src/lib.rs struct Evidence
// smallvec::SmallVec: a sequence (contracts assumed of the dependency and of slice::binary_search_by_key)
#[verifier::external_body] #[verifier::accept_recursive_types(A)] pub struct SmallVec<A> { x: std::marker::PhantomData<A> }
pub open spec fn sorted(s: Seq<Marker>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).ability_id < (#[trigger] s[j]).ability_id }
impl SmallVec<[Marker; 4]> {
  pub uninterp spec fn view(&self) -> Seq<Marker>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<Marker>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn at(&self, i: usize) -> (r: &Marker) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
  #[verifier::external_body] pub fn set(&mut self, i: usize, m: Marker) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, m) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, i: usize, m: Marker) requires i <= old(self)@.len() ensures final(self)@ == old(self)@.insert(i as int, m) { unimplemented!() }
  #[verifier::external_body] pub fn search_by_ability_id(&self, id: i32) -> (r: Result<usize, usize>)
    requires sorted(self@),
    ensures match r {
      Ok(i) => i < self@.len() && self@[i as int].ability_id == id,
      Err(i) => i <= self@.len() && (forall|j: int| 0 <= j < i ==> (#[trigger] self@[j]).ability_id < id) && (forall|j: int| i <= j < self@.len() ==> (#[trigger] self@[j]).ability_id > id) } { unimplemented!() }
}
impl Evidence { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.markers@ == self.markers@ { unimplemented!() } }

spec fn wf(e: &Evidence) -> bool { sorted(e.markers@) }
// the handlers an evidence value knows, by ability
pub open spec fn table(s: Seq<Marker>) -> IMap<i32, Marker> { IMap::new(|id: i32| exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ability_id == id, |id: i32| s[choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).ability_id == id]) }
mod lemmas {
  use vstd::prelude::*; use super::*;
  // in sorted evidence the entry of an ability is unique
  pub broadcast proof fn at(s: Seq<Marker>, i: int)
    requires sorted(s), 0 <= i < s.len()
    ensures table(s).contains_key((#[trigger] s[i]).ability_id), table(s)[s[i].ability_id] == s[i]
  { let id = s[i].ability_id; let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ability_id == id;
    if k < i { assert(s[k].ability_id < s[i].ability_id); } else if i < k { assert(s[i].ability_id < s[k].ability_id); } }
  pub broadcast proof fn update(s: Seq<Marker>, i: int, m: Marker)
    requires sorted(s), 0 <= i < s.len(), s[i].ability_id == m.ability_id
    ensures sorted(#[trigger] s.update(i, m)), table(s.update(i, m)) =~= table(s).insert(m.ability_id, m)
  { let t = s.update(i, m);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).ability_id < (#[trigger] t[b]).ability_id by { assert(s[a].ability_id < s[b].ability_id); }
    assert forall|id: i32| table(t).contains_key(id) == table(s).insert(m.ability_id, m).contains_key(id) by {
      if table(s).contains_key(id) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ability_id == id; assert(t[k].ability_id == id); }
      if table(t).contains_key(id) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).ability_id == id; assert(s[k].ability_id == id); }
      if id == m.ability_id { assert(t[i].ability_id == id); } }
    assert forall|id: i32| table(t).contains_key(id) implies table(t)[id] == table(s).insert(m.ability_id, m)[id] by {
      let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).ability_id == id; at(t, k); at(s, k); at(t, i); at(s, i);
      if k == i { } else if k < i { assert(s[k].ability_id < s[i].ability_id); } else { assert(s[i].ability_id < s[k].ability_id); } } }
  pub broadcast proof fn insert(s: Seq<Marker>, i: int, m: Marker)
    requires sorted(s), 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).ability_id < m.ability_id, forall|j: int| i <= j < s.len() ==> (#[trigger] s[j]).ability_id > m.ability_id
    ensures sorted(#[trigger] s.insert(i, m)), table(s.insert(i, m)) =~= table(s).insert(m.ability_id, m)
  { let t = s.insert(i, m);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).ability_id < (#[trigger] t[b]).ability_id by {
      let x = if a < i { a } else { a - 1 }; let y = if b < i { b } else { b - 1 };
      if a == i { assert(t[b] == s[b - 1]); } else if b == i { assert(t[a] == s[a]); } else { assert(t[a] == s[x] && t[b] == s[y]); assert(s[x].ability_id < s[y].ability_id); } }
    assert(t[i] == m);
    assert forall|id: i32| table(t).contains_key(id) == table(s).insert(m.ability_id, m).contains_key(id) by {
      if table(s).contains_key(id) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).ability_id == id; assert(t[if k < i { k } else { k + 1 }] == s[k]); }
      if table(t).contains_key(id) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).ability_id == id; if k != i { assert(t[k] == s[if k < i { k } else { k - 1 }]); } } }
    assert forall|id: i32| table(t).contains_key(id) implies table(t)[id] == table(s).insert(m.ability_id, m)[id] by {
      let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).ability_id == id; at(t, k);
      if k != i { let k2 = if k < i { k } else { k - 1 }; assert(t[k] == s[k2]); at(s, k2); } } }
}
mod code {
use vstd::prelude::*; use super::*;
broadcast use {lemmas::at, lemmas::update, lemmas::insert};

impl Evidence {
//@fn crates/tribute-runtime/src/lib.rs new in Evidence
//@ret r
//@sub SmallVec::new => SmallVec::<[Marker; 4]>::new
//@spec
  ensures wf(&r), table(r.markers@) =~= IMap::<i32, Marker>::empty()
//@end
//@fn crates/tribute-runtime/src/lib.rs lookup in Evidence
//@ret r
//@sub \.binary_search_by_key\(\s*&([\w.]+),\s*\|(\w+)\|\s*\2\.ability_id\s*,?\s*\) => .search_by_ability_id(\1)
//@opt debug_assert!\(\s*result\.is_ok\(\),.*?\); => proof { assert(result.is_ok()); }
//@sub unsafe \{ core::hint::unreachable_unchecked\(\) \} => vstd::pervasive::unreached()
//@sub &self\.markers\[(\w+)\] => self.markers.at(\1)
//@spec
  requires wf(self), table(self.markers@).contains_key(ability_id)
  ensures *r == table(self.markers@)[ability_id]
//@end
//@fn crates/tribute-runtime/src/lib.rs extend in Evidence
//@ret r
//@sub \.binary_search_by_key\(\s*&([\w.]+),\s*\|(\w+)\|\s*\2\.ability_id\s*,?\s*\) => .search_by_ability_id(\1)
//@sub new\.markers\[(\w+)\] = (\w+); => new.markers.set(\1, \2);
//@spec
  requires wf(self)
  ensures wf(&r), table(r.markers@) =~= table(self.markers@).insert(marker.ability_id, marker)
//@end
}
}
// After any history of extensions from the empty evidence, the entry of an ability is the last one installed for it.
pub open spec fn history(h: Seq<Marker>) -> IMap<i32, Marker> decreases h.len() { if h.len() == 0 { IMap::empty() } else { history(h.drop_last()).insert(h.last().ability_id, h.last()) } }
proof fn innermost(h: Seq<Marker>, i: int)
  requires 0 <= i < h.len(), forall|j: int| i < j < h.len() ==> (#[trigger] h[j]).ability_id != h[i].ability_id
  ensures history(h).contains_key(h[i].ability_id), history(h)[h[i].ability_id] == h[i]
  decreases h.len()
{ if i < h.len() - 1 { assert(h.drop_last()[i] == h[i]); innermost(h.drop_last(), i); assert(h.last().ability_id != h[i].ability_id); } }
proof fn untouched(h: Seq<Marker>, id: i32)
  requires forall|j: int| 0 <= j < h.len() ==> (#[trigger] h[j]).ability_id != id
  ensures !history(h).contains_key(id)
  decreases h.len()
{ if h.len() > 0 { assert forall|j: int| 0 <= j < h.len() - 1 implies (#[trigger] h.drop_last()[j]).ability_id != id by { assert(h.drop_last()[j] == h[j]); } untouched(h.drop_last(), id); assert(h[h.len() - 1].ability_id != id); } }
}
fn main() {}
