// Printed output: write_all_with writes every byte once, in order, whatever the writes return (C04).
use vstd::prelude::*;
verus! {
mod libc { use vstd::prelude::*; pub const EINTR: i32 = 4; }
// the environment: write(2) accepts a prefix of what it is given, or fails and accepts nothing
#[verifier::external_body] pub struct WriteOnce { x: u8 }
impl WriteOnce {
  pub uninterp spec fn out(&self) -> Seq<u8>;
  pub uninterp spec fn failed(&self) -> bool; // a write returned 0 or an error other than an interruption
  #[verifier::external_body] pub fn call(&mut self, buf: &[u8]) -> (r: Result<usize, i32>)
    requires buf@.len() > 0
    ensures match r {
      Ok(n) => n <= buf@.len() && final(self).out() == old(self).out() + buf@.take(n as int) && final(self).failed() == (old(self).failed() || n == 0),
      Err(e) => final(self).out() == old(self).out() && final(self).failed() == (old(self).failed() || e != 4) } { unimplemented!() }
}
#[verifier::exec_allows_no_decreases_clause]
//@fn crates/tribute-runtime/src/lib.rs write_all_with
//@ret done
//@sub mut remaining: &\[u8\] => input: &[u8]
//@sub @BODY@\{ => @BODY@{ let mut remaining = input;
//@sub mut write_once: impl FnMut\(&\[u8\]\) -> Result<usize, i32> => write_once: &mut WriteOnce
//@sub \bwrite_once\( => write_once.call(
//@opt !remaining\.is_empty\(\) => (remaining.len() > 0)
//@opt remaining\.is_empty\(\) => (remaining.len() == 0)
//@opt &remaining\[(\w+)\.\.\] => vstd::slice::slice_subrange(remaining, \1, remaining.len())
//@spec
  requires !old(write_once).failed()
  ensures
    done ==> final(write_once).out() == old(write_once).out() + input@ && !final(write_once).failed(),
    !done ==> final(write_once).failed() && exists|k: int| 0 <= k < input@.len() && final(write_once).out() == old(write_once).out() + #[trigger] input@.take(k),
//@loop 0
  invariant !write_once.failed(), remaining@.len() <= input@.len(), remaining@ =~= input@.skip(input@.len() - remaining@.len()), write_once.out() =~= old(write_once).out() + input@.take(input@.len() - remaining@.len()),
//@end
}
fn main() {}
