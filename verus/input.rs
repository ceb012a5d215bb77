// Line input: read_line_with and the stdin buffer lose, duplicate or invent no byte (C03).
use vstd::prelude::*;
verus! {
//@item crates/tribute-runtime/src/lib.rs enum ReadByte
//@item crates/tribute-runtime/src/lib.rs enum ReadChunk
//@item crates/tribute-runtime/src/lib.rs struct NativeReadLineResult
//@item crates/tribute-runtime/src/lib.rs const STDIN_BUFFER_SIZE
//@item crates/tribute-runtime/src/lib.rs struct StdinBuffer
//@item crates/tribute-runtime/src/lib.rs const IO_READ_LINE
//@item crates/tribute-runtime/src/lib.rs const IO_READ_END_OF_FILE
//@item crates/tribute-runtime/src/lib.rs const IO_READ_INVALID_ENCODING
//@item crates/tribute-runtime/src/lib.rs const IO_READ_SYSTEM
pub struct TributeBytes { pub ptr: *mut u8, pub len: u64 }
// what a result descriptor says
pub enum Outcome { Line(Seq<u8>), Invalid, Eof, Failed(i32) }
uninterp spec fn outcome(r: *mut NativeReadLineResult) -> Outcome;
uninterp spec fn contents(b: *mut TributeBytes) -> Seq<u8>;
uninterp spec fn utf8(b: Seq<u8>) -> bool;
spec fn text(b: Seq<u8>) -> Outcome { if utf8(b) { Outcome::Line(b) } else { Outcome::Invalid } }
// contracts of the callees: the descriptor holds what was put in (checked by the Kani and native parts of C03)
#[verifier::external_body] fn allocate_read_result(result: NativeReadLineResult) -> (r: *mut NativeReadLineResult)
  ensures outcome(r) == (if result.tag == 0 { Outcome::Line(contents(result.bytes)) } else if result.tag == 1 { Outcome::Eof } else if result.tag == 2 { Outcome::Invalid } else { Outcome::Failed(result.code) }) { unimplemented!() }
#[verifier::external_body] fn allocate_bytes(bytes: &[u8]) -> (r: *mut TributeBytes) ensures contents(r) == bytes@ { unimplemented!() }
#[verifier::external_body] fn null_bytes() -> *mut TributeBytes { unimplemented!() }
#[verifier::external_body] fn failure_text() -> &'static [u8] { unimplemented!() }
#[verifier::external_body] fn is_utf8(b: &Vec<u8>) -> (r: bool) ensures r == utf8(b@) { unimplemented!() }
#[verifier::external_body] fn ends_with(b: &Vec<u8>, c: u8) -> (r: bool) ensures r == (b@.len() > 0 && b@.last() == c) { unimplemented!() }
#[verifier::external_body] fn as_slice(b: &Vec<u8>) -> (r: &[u8]) ensures r@ == b@ { unimplemented!() }

// the source of single bytes: everything it has delivered, and how the last request ended
pub enum Status { Byte, Eof, Interrupted, Failed(i32) }
#[verifier::external_body] pub struct Source { x: u8 }
impl Source {
  pub uninterp spec fn delivered(&self) -> Seq<u8>;
  pub uninterp spec fn status(&self) -> Status;
  #[verifier::external_body] fn call(&mut self) -> (r: ReadByte)
    ensures match r {
      ReadByte::Byte(b) => final(self).delivered() == old(self).delivered().push(b) && final(self).status() == Status::Byte,
      ReadByte::EndOfFile => final(self).delivered() == old(self).delivered() && final(self).status() == Status::Eof,
      ReadByte::Interrupted => final(self).delivered() == old(self).delivered() && final(self).status() == Status::Interrupted,
      ReadByte::Error(c) => final(self).delivered() == old(self).delivered() && final(self).status() == Status::Failed(c) } { unimplemented!() }
}
mod lemmas {
  use vstd::prelude::*;
  pub broadcast proof fn skip_add(a: Seq<u8>, b: Seq<u8>) ensures (#[trigger] (a + b)).skip(a.len() as int) == b, (a + b).take(a.len() as int) == a { assert((a + b).skip(a.len() as int) =~= b); assert((a + b).take(a.len() as int) =~= a); }
  pub broadcast proof fn push_add(a: Seq<u8>, b: Seq<u8>, x: u8) ensures #[trigger] (a + b).push(x) == a + b.push(x) { assert((a + b).push(x) =~= a + b.push(x)); }
  pub broadcast proof fn push_drop(b: Seq<u8>, x: u8) ensures (#[trigger] b.push(x)).drop_last() == b { assert(b.push(x).drop_last() =~= b); }
}
spec fn no_newline(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 10 }
spec fn strip_cr(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s.last() == 13 { s.drop_last() } else { s } }

//@fn crates/tribute-runtime/src/lib.rs line_result
//@ret r
//@sub core::str::from_utf8\(&bytes\)\.is_err\(\) => !is_utf8(&bytes)
//@sub core::ptr::null_mut\(\) => null_bytes()
//@sub allocate_bytes\(&bytes\) => allocate_bytes(as_slice(&bytes))
//@spec
  ensures outcome(r) == text(bytes@)
//@end

mod code {
use vstd::prelude::*; use super::*;
broadcast use {lemmas::skip_add, lemmas::push_add, lemmas::push_drop};
#[verifier::exec_allows_no_decreases_clause]
//@fn crates/tribute-runtime/src/lib.rs read_line_with
//@ret r
//@sub mut read_byte: impl FnMut\(\) -> ReadByte => read_byte: &mut Source
//@sub \bread_byte\(\) => read_byte.call()
//@sub core::ptr::null_mut\(\) => null_bytes()
//@sub b"[^"]*" => failure_text()
//@sub bytes\.last\(\) == Some\(&b'\\r'\) => ends_with(&bytes, 13)
//@opt bytes\.is_empty\(\) => (bytes.len() == 0)
//@opt b'\\n' => 10u8
//@opt b'\\r' => 13u8
//@sub let mut bytes = Vec::new\(\) => let mut bytes: Vec<u8> = Vec::new()
//@spec
  ensures ({ let n = old(read_byte).delivered().len() as int; let all = final(read_byte).delivered(); let got = all.skip(n);
    &&& n <= all.len() && all.take(n) =~= old(read_byte).delivered()
    &&& match final(read_byte).status() {
      Status::Byte => got.len() > 0 && got.last() == 10 && no_newline(got.drop_last()) && outcome(r) == text(strip_cr(got.drop_last())),
      Status::Eof => no_newline(got) && outcome(r) == (if got.len() == 0 { Outcome::Eof } else { text(got) }),
      Status::Interrupted => false,
      Status::Failed(c) => no_newline(got) && outcome(r) == Outcome::Failed(c) } })
//@loop 0
  invariant no_newline(bytes@), read_byte.delivered() =~= old(read_byte).delivered() + bytes@,
//@end
}

// refill: read(2) puts the next n bytes of the input at the start of the buffer
#[verifier::external_body] pub struct Refill { x: u8 }
impl Refill {
  pub uninterp spec fn delivered(&self) -> Seq<u8>;
  #[verifier::external_body] fn call(&mut self, buffer: &mut [u8; STDIN_BUFFER_SIZE]) -> (r: ReadChunk)
    ensures match r {
      ReadChunk::Bytes(n) => 1 <= n <= STDIN_BUFFER_SIZE && final(self).delivered() == old(self).delivered() + final(buffer)@.take(n as int),
      _ => final(self).delivered() == old(self).delivered() && final(buffer)@ == old(buffer)@ } { unimplemented!() }
}
impl StdinBuffer {
  // the bytes read from the system and not yet handed out
  spec fn pending(&self) -> Seq<u8> { self.bytes@.subrange(self.position as int, self.length as int) }
  spec fn wf(&self) -> bool { self.position <= self.length <= STDIN_BUFFER_SIZE }
//@fn crates/tribute-runtime/src/lib.rs new in StdinBuffer
//@ret r
//@spec
  ensures r.wf(), r.pending().len() == 0
//@end
//@fn crates/tribute-runtime/src/lib.rs read_byte in StdinBuffer
//@ret r
//@sub mut refill: impl FnMut\(&mut \[u8\]\) -> ReadChunk => refill: &mut Refill
//@sub \brefill\( => refill.call(
//@opt debug_assert!\(.*?\); =>
//@spec
  requires old(self).wf()
  ensures final(self).wf(), old(refill).delivered().len() <= final(refill).delivered().len(),
    ({ let fresh = final(refill).delivered().skip(old(refill).delivered().len() as int);
       &&& final(refill).delivered() =~= old(refill).delivered() + fresh
       &&& match r { ReadByte::Byte(b) => old(self).pending() + fresh =~= seq![b] + final(self).pending(),
                     _ => old(self).pending().len() == 0 && fresh.len() == 0 && final(self).pending().len() == 0 } }),
//@end
}
}
fn main() {}
