//! Native contract runner: evaluates the same ABI contracts the Kani harnesses prove, on the real
//! crates (real smallvec/Vec/libc), over enumerated and pseudo-random inputs. Its role is to turn a
//! failed obligation into a concrete failing input; it is a bounded companion, never counted as proof.
#![allow(static_mut_refs)]
use std::collections::BTreeMap;
use std::fmt::Write as _;
use tribute_rc::RcBox;
use tribute_runtime::*;
mod abi {
    pub enum Ev {}
    unsafe extern "C" {
        pub fn __tribute_evidence_empty() -> *mut Ev;
        pub fn __tribute_evidence_extend(ev: *const Ev, id: i32, tag: i32, tr: *const u8, h: *const u8) -> *mut Ev;
        pub fn __tribute_evidence_lookup(ev: *const Ev, id: i32) -> i32;
        pub fn __tribute_evidence_lookup_tr(ev: *const Ev, id: i32) -> *const u8;
        pub fn __tribute_evidence_lookup_handler(ev: *const Ev, id: i32) -> *const u8;
    }
}

// ------------------------------------------------------------------ plumbing
static mut NOTE: *mut u8 = std::ptr::null_mut();
const NOTE_CAP: usize = 4096;
static mut CASES: *mut u64 = std::ptr::null_mut();
fn note(s: &str) {
    unsafe {
        let n = s.len().min(NOTE_CAP - 8);
        *(NOTE as *mut u64) = n as u64;
        std::ptr::copy_nonoverlapping(s.as_ptr(), NOTE.add(8), n);
        *CASES += 1;
    }
}
fn cur() -> String {
    unsafe {
        let n = *(NOTE as *const u64) as usize;
        String::from_utf8_lossy(std::slice::from_raw_parts(NOTE.add(8), n)).into_owned()
    }
}
fn fail(msg: &str) -> ! {
    let c = cur();
    let out = format!("FAIL\t{msg}\t{c}\n");
    unsafe {
        libc::syscall(libc::SYS_write, 2, out.as_ptr(), out.len());
        libc::_exit(10)
    }
}
macro_rules! ck { ($c:expr, $m:expr) => { if !$c { fail($m) } } }
/// runs f in a child; Some(status) of the child
fn forked(f: impl FnOnce()) -> i32 {
    unsafe {
        let pid = libc::fork();
        if pid == 0 { f(); libc::_exit(0) }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        st
    }
}
fn must_abort(msg: &str, f: impl FnOnce()) {
    let st = forked(|| { unsafe { libc::syscall(libc::SYS_close, 2) }; f() });
    ck!(libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGABRT, msg);
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 11) % n }
}

// --------------------------------------------- interposed read()/write()
static mut ARMED_R: bool = false;
static mut R_INPUT: Vec<u8> = Vec::new();
static mut R_POS: usize = 0;
static mut R_SCRIPT: Vec<i64> = Vec::new(); // >0 chunk limit, -4 EINTR, other <0 error
static mut R_STEP: usize = 0;
static mut R_ERR: i32 = 0;
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    unsafe {
        if !ARMED_R || fd != 0 { return libc::syscall(libc::SYS_read, fd as libc::c_long, buf, n) as isize; }
        let s = if R_STEP < R_SCRIPT.len() { R_SCRIPT[R_STEP] } else { i64::MAX };
        R_STEP += 1;
        if s < 0 { *libc::__errno_location() = (-s) as i32; if -s != libc::EINTR as i64 { R_ERR = (-s) as i32; } return -1; }
        let k = (R_INPUT.len() - R_POS).min(n).min(s as usize);
        std::ptr::copy_nonoverlapping(R_INPUT.as_ptr().add(R_POS), buf, k);
        R_POS += k;
        k as isize
    }
}
static mut ARMED_W: bool = false;
static mut W_OUT: Vec<u8> = Vec::new();
static mut W_SCRIPT: Vec<i64> = Vec::new();
static mut W_STEP: usize = 0;
static mut W_FAILED: bool = false;
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    unsafe {
        if !ARMED_W || fd == 2 { return libc::syscall(libc::SYS_write, fd as libc::c_long, buf, n) as isize; }
        if fd != 1 { fail("OUT: only standard output is written") }
        if W_FAILED { fail("OUT: nothing is written after a hard error") }
        let s = if W_STEP < W_SCRIPT.len() { W_SCRIPT[W_STEP] } else { i64::MAX };
        W_STEP += 1;
        if W_STEP > 100000 { fail("OUT: writing terminates") }
        if s < 0 { *libc::__errno_location() = (-s) as i32; if -s != libc::EINTR as i64 { W_FAILED = true; } return -1; }
        if s == 0 { W_FAILED = true; return 0; }
        let k = n.min(s as usize);
        W_OUT.extend_from_slice(std::slice::from_raw_parts(buf, k));
        k as isize
    }
}

// ------------------------------------------------------------------ evidence
fn evidence(seed: u64, budget: u64) {
    let mut r = Rng(seed * 7919 + 1);
    let bounds = [i32::MIN, i32::MIN + 1, -2, -1, 0, 1, 2, i32::MAX - 1, i32::MAX];
    for it in 0..budget {
        let n = 1 + r.below(if it % 4 == 0 { 40 } else { 9 }) as usize;
        let pool = 1 + r.below(n as u64 + 2);
        let mut hist = Vec::new();
        for _ in 0..n {
            let id = match r.below(4) { 0 => bounds[r.below(9) as usize], 1 => r.next() as i32, _ => r.below(pool) as i32 - (pool / 2) as i32 };
            let tag = r.next() as i32;
            // dispatch pointers: null or opaque addresses
            let tr = if r.below(3) == 0 { 0 } else { r.next() as usize };
            let h = if r.below(3) == 0 { 0 } else { r.next() as usize };
            hist.push((id, tag, tr, h));
        }
        note(&format!("evidence history (ability, tag, tr, handler): {hist:?}"));
        let mut ev = vec![unsafe { abi::__tribute_evidence_empty() }];
        let mut maps: Vec<BTreeMap<i32, (i32, usize, usize)>> = vec![BTreeMap::new()];
        // persistent tree: sometimes extend an older evidence
        let mut parents = Vec::new();
        for (i, &(id, tag, tr, h)) in hist.iter().enumerate() {
            let par = if it % 3 == 0 { r.below(i as u64 + 1) as usize } else { i };
            parents.push(par);
            let e = unsafe { abi::__tribute_evidence_extend(ev[par], id, tag, tr as *const u8, h as *const u8) };
            let mut m = maps[par].clone();
            m.insert(id, (tag, tr, h));
            ev.push(e);
            maps.push(m);
        }
        note(&format!("evidence history (ability, tag, tr, handler): {hist:?} parents: {parents:?}"));
        for (e, m) in ev.iter().zip(&maps) {
            for (&id, &(tag, tr, h)) in m {
                unsafe {
                    ck!(abi::__tribute_evidence_lookup(*e, id) == tag, "EV: prompt tag of the innermost handler");
                    ck!(abi::__tribute_evidence_lookup_tr(*e, id) as usize == tr, "EV: tail-resumptive dispatch of the innermost handler");
                    ck!(abi::__tribute_evidence_lookup_handler(*e, id) as usize == h, "EV: handler dispatch of the innermost handler");
                }
            }
        }
    }
}

// --------------------------------------------------------------------- bytes
fn mk(data: &[u8], count: u32) -> *mut TributeBytes {
    unsafe {
        let raw = __tribute_alloc(std::mem::size_of::<RcBox<TributeBytes>>() as u64);
        let rc = RcBox::<TributeBytes>::init(raw, 0);
        (*rc).refcount.store(count, std::sync::atomic::Ordering::Relaxed);
        (*rc).payload.len = data.len() as u64;
        (*rc).payload.ptr = if data.is_empty() { std::ptr::null() } else {
            let p = __tribute_alloc(data.len() as u64);
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            p
        };
        &raw mut (*rc).payload
    }
}
fn view(b: *const TributeBytes) -> Vec<u8> {
    unsafe { if (*b).len == 0 { vec![] } else { std::slice::from_raw_parts((*b).ptr, (*b).len as usize).to_vec() } }
}
fn count(b: *const TributeBytes) -> u32 { unsafe { (*RcBox::from_payload_ptr(b)).refcount.load(std::sync::atomic::Ordering::Relaxed) } }
fn rtti(b: *const TributeBytes) -> u32 { unsafe { (*RcBox::from_payload_ptr(b)).rtti_idx } }
fn free(b: *mut TributeBytes, data: bool) {
    unsafe {
        if data { __tribute_dealloc((*b).ptr as *mut u8, (*b).len); }
        __tribute_dealloc(RcBox::from_payload_ptr_mut(b) as *mut u8, std::mem::size_of::<RcBox<TributeBytes>>() as u64);
    }
}
fn bytes(seed: u64, budget: u64) {
    let mut r = Rng(seed * 104729 + 3);
    let lens = [0usize, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 255, 256, 257, 4095, 4096, 5000, 65535, 65536, 70000];
    for it in 0..budget {
        let pick = |r: &mut Rng| { let k = if it % 20 == 0 { 27 } else { 21 }; lens[r.below(k) as usize] };
        let la = pick(&mut r);
        let lb = pick(&mut r);
        let alpha = [2u64, 4, 256][r.below(3) as usize];
        let da: Vec<u8> = (0..la).map(|_| r.below(alpha) as u8).collect();
        let mut db: Vec<u8> = (0..lb).map(|_| r.below(alpha) as u8).collect();
        if r.below(2) == 0 { for i in 0..la.min(lb) { db[i] = da[i]; } if la.min(lb) > 0 && r.below(2) == 0 { let k = r.below(la.min(lb) as u64) as usize; db[k] ^= 1 << r.below(8); } }
        let (ca, cb) = (1 + r.below(5) as u32, 1 + r.below(1 << 31) as u32);
        let show = |d: &[u8]| if d.len() <= 300 { format!("{d:?}") } else { format!("{:?}.. ({} bytes)", &d[..64], d.len()) };
        note(&format!("bytes a={} (count {ca}) b={} (count {cb})", show(&da), show(&db)));
        let (a, b) = (mk(&da, ca), mk(&db, cb));
        unsafe {
            ck!(__tribute_bytes_len(a) as usize == la, "BYTES: len is the stored length");
            let c = __tribute_bytes_concat(a, b);
            ck!(c != a && c != b, "BYTES: concat returns a fresh value");
            ck!((*c).len as usize == la + lb, "BYTES: concat length is the sum");
            let want: Vec<u8> = da.iter().chain(&db).copied().collect();
            ck!(view(c) == want, "BYTES: concat content is left then right");
            ck!(la + lb == 0 || ((*c).ptr != (*a).ptr && (*c).ptr != (*b).ptr), "BYTES: concat owns a fresh buffer");
            ck!(count(c) == 1 && rtti(c) == 0, "BYTES: concat result starts with one reference and the Bytes type index");
            ck!(count(a) == ca && count(b) == cb && view(a) == da && view(b) == db, "BYTES: concat leaves the operands alone");
            for _ in 0..6 {
                let (mut s, mut e) = (r.below(la as u64 + 1) as u32, r.below(la as u64 + 1) as u32);
                if s > e { std::mem::swap(&mut s, &mut e); }
                note(&format!("slice of {} from {s} to {e}", show(&da)));
                let before = count(a);
                let sl = __tribute_bytes_slice_or_panic(a, s, e);
                ck!(sl != a, "BYTES: slice returns a fresh value");
                ck!((*sl).len == (e - s) as u64, "BYTES: slice length is end - start");
                ck!(view(sl) == da[s as usize..e as usize], "BYTES: slice content is the range");
                ck!(count(sl) == 1 && rtti(sl) == 0, "BYTES: slice result starts with one reference and the Bytes type index");
                ck!(count(a) == before + 1, "BYTES: slice retains the original exactly once");
                ck!(view(a) == da, "BYTES: slice leaves the original alone");
                free(sl, false);
            }
            for _ in 0..8 {
                let big = [0u32, 1, 2, u32::MAX, u32::MAX - 1, 1 << 31];
                let rp = |r: &mut Rng, n: usize| if r.below(6) == 0 { big[r.below(6) as usize] } else { r.below(n as u64 + 2) as u32 };
                let (mut s, mut t, mut n) = (rp(&mut r, la), rp(&mut r, lb), rp(&mut r, la.min(lb)));
                if r.below(2) == 0 && la.min(lb) > 0 { s = r.below(la.min(lb) as u64) as u32; t = s; n = r.below((la.min(lb) as u32 - s) as u64 + 1) as u32; }
                note(&format!("range_equal a={} start {s}, b={} start {t}, len {n}", show(&da), show(&db)));
                let inside = s as u64 + n as u64 <= la as u64 && t as u64 + n as u64 <= lb as u64;
                let want = inside && da[s as usize..(s as u64 + n as u64) as usize] == db[t as usize..(t as u64 + n as u64) as usize];
                ck!(__tribute_bytes_range_equal(a, s, b, t, n) == want as u32, "BYTES: range_equal is 1 exactly when both ranges lie inside and agree");
            }
            if it % 97 == 0 {
                for (s, e) in [(la as u32 + 1, la as u32 + 1), (0, la as u32 + 1), (1, 0), (u32::MAX, 0), (0, u32::MAX)] {
                    note(&format!("slice of {} bytes from {s} to {e} must abort", la));
                    must_abort("BYTES: slice outside the value aborts", || { __tribute_bytes_slice_or_panic(a, s, e); });
                }
            }
            free(c, true);
        }
        free(a, true);
        free(b, true);
    }
    let d = [0u8; 4];
    for (x, y) in [(u64::MAX, 1), (1, u64::MAX), (1 << 63, 1 << 63)] {
        note(&format!("concat of lengths {x} and {y} must abort"));
        let a = TributeBytes { ptr: d.as_ptr(), len: x };
        let b = TributeBytes { ptr: d.as_ptr(), len: y };
        must_abort("BYTES: concat whose length overflows aborts", || unsafe { __tribute_bytes_concat(&a, &b); });
    }
    for x in [0u64, 1, 255, 256, 65535, 65536, 1 << 24, (1 << 31) - 1, 1 << 31, u32::MAX as u64] {
        note(&format!("len of a Bytes of {x} bytes"));
        let a = TributeBytes { ptr: d.as_ptr(), len: x };
        ck!(unsafe { __tribute_bytes_len(&a) } as u64 == x, "BYTES: len is the stored length");
    }
}

// -------------------------------------------------------------------- output
fn rand_script(r: &mut Rng, fail: bool) -> Vec<i64> {
    (0..r.below(6)).map(|_| match r.below(5) { 0 => -(libc::EINTR as i64), 1 if fail => [-5, -11, 0, -32][r.below(4) as usize], 2 => 1, _ => 1 + r.below(9) as i64 }).collect()
}
fn armed_out(script: &[i64], f: impl FnOnce()) -> (Vec<u8>, bool) {
    unsafe {
        W_OUT.clear(); W_SCRIPT = script.to_vec(); W_STEP = 0; W_FAILED = false; ARMED_W = true;
        f();
        ARMED_W = false;
        (W_OUT.clone(), W_FAILED)
    }
}
fn output(seed: u64, budget: u64) {
    let mut r = Rng(seed * 31337 + 5);
    for it in 0..budget {
        let l = if it % 50 == 0 { 60000 + r.below(20000) as usize } else { r.below(24) as usize };
        let d: Vec<u8> = (0..l).map(|_| r.next() as u8).collect();
        let nl = r.below(2) as u32;
        let fail_ok = it % 3 == 0;
        let sc = rand_script(&mut r, fail_ok);
        let what = r.below(7);
        let num = match r.below(4) { 0 => r.next(), 1 => [0u64, 1, 9, 10, 99, 100, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fff6, 999_999_999, 1_000_000_000][r.below(12) as usize], 2 => (r.next() as i64 >> r.below(64)) as u64, _ => f64::to_bits((r.below(2_000_001) as f64 - 1e6) / [1.0, 3.0, 8.0, 10.0][r.below(4) as usize]) };
        note(&format!("output call {what} (0=io_write 1=bytes_print 2=print_newline 3=print_bytes 4=print_int 5=print_nat 6=print_float, number bits {num:#x}) data={:?} newline={nl} write() script={sc:?} (positive: accept at most n; -4: EINTR; other: failure)", &d[..l.min(200)]));
        let b = TributeBytes { ptr: if l == 0 { std::ptr::null() } else { d.as_ptr() }, len: l as u64 };
        let mut want = match what { 2 => vec![], 4 => format!("{}\n", num as i32).into_bytes(), 5 => format!("{}\n", num as u32).into_bytes(), _ => d.clone() };
        if what == 6 && fail_ok { continue; }
        if what == 6 {
            let v = f64::from_bits(num);
            let (out, failed) = armed_out(&sc, || __tribute_print_float(v));
            if !failed {
                ck!(out.last() == Some(&b'\n') && out.iter().filter(|&&c| c == b'\n').count() == 1, "OUT: a printed number ends with one newline");
                let s = String::from_utf8_lossy(&out[..out.len() - 1]).into_owned();
                if v.is_finite() { ck!(s.parse::<f64>().map(|x| x.to_bits()) == Ok(v.to_bits()), "OUT: a printed float reads back as the same value"); }
            }
            continue;
        }
        if what == 2 || (what == 0 && nl == 1) { want.push(b'\n'); }
        // after a hard error within the payload, __tribute_io_write may still attempt the newline: allowed
        if fail_ok && (what == 0 || what >= 4) { continue; }
        let (out, failed) = armed_out(&sc, || unsafe { match what { 0 => __tribute_io_write(&b, nl), 1 => __tribute_bytes_print(&b), 2 => __tribute_print_newline(), 3 => __tribute_print_bytes(b.ptr, b.len), 4 => __tribute_print_int(num as i32), _ => __tribute_print_nat(num as u32) } });
        if failed { ck!(want.starts_with(&out), "OUT: a prefix is written before a hard error"); }
        else { ck!(out == want, "OUT: every byte is written exactly once, in order"); }
    }
}

// --------------------------------------------------------------------- input
#[derive(PartialEq, Debug)]
enum Line { Text(Vec<u8>), Eof, Bad, Sys(i32) }
fn reference(input: &[u8], from: usize) -> (Line, usize) {
    if from == input.len() { return (Line::Eof, from); }
    let rest = &input[from..];
    let (line, next) = match rest.iter().position(|&c| c == b'\n') {
        Some(k) => { let l = &rest[..k]; (l.strip_suffix(b"\r").unwrap_or(l), from + k + 1) }
        None => (rest, input.len()),
    };
    (match std::str::from_utf8(line) { Ok(_) => Line::Text(line.to_vec()), Err(_) => Line::Bad }, next)
}
fn decode(p: *mut NativeReadLineResult) -> Line {
    unsafe {
        ck!(!p.is_null(), "IN: a result descriptor is returned");
        let r = &*p;
        let l = match r.tag {
            IO_READ_LINE => { ck!(!r.bytes.is_null() && r.message.is_null() && r.code == 0, "IN: a line carries a payload and no error"); ck!(count(r.bytes) == 1, "IN: payload starts with one reference"); Line::Text(view(r.bytes)) }
            IO_READ_END_OF_FILE => { ck!(r.bytes.is_null() && r.message.is_null() && r.code == 0, "IN: end of file carries no payload"); Line::Eof }
            IO_READ_INVALID_ENCODING => { ck!(r.bytes.is_null() && r.message.is_null() && r.code == 0, "IN: invalid encoding carries no payload"); Line::Bad }
            IO_READ_SYSTEM => { ck!(r.bytes.is_null() && !r.message.is_null(), "IN: a system error carries a message"); ck!(view(r.message) == b"stdin read failed", "IN: the error message"); Line::Sys(r.code) }
            _ => fail("IN: the result tag is one of the four"),
        };
        if !r.bytes.is_null() { free(r.bytes, true); }
        if !r.message.is_null() { free(r.message, true); }
        __tribute_io_read_line_result_dealloc(p);
        l
    }
}
fn run_input(input: Vec<u8>, script: Vec<i64>, desc: &str) {
    // a fresh thread gives a fresh per-thread buffer
    note(desc);
    let n = input.len();
    let errs = script.iter().filter(|&&s| s < 0 && s != -(libc::EINTR as i64)).count();
    unsafe { R_INPUT = input.clone(); R_POS = 0; R_SCRIPT = script; R_STEP = 0; R_ERR = 0; }
    std::thread::spawn(move || {
        __tribute_init();
        let mut pos = 0;
        let mut pending = errs;
        for _ in 0..(n + 3 + errs) {
            unsafe { ARMED_R = true; R_ERR = 0; }
            let got = decode(__tribute_io_read_line());
            unsafe { ARMED_R = false; }
            let e = unsafe { R_ERR };
            if e != 0 {
                ck!(got == Line::Sys(e), "IN: a hard read error is reported with its code");
                ck!(pending > 0, "IN: spurious error");
                pending -= 1;
                pos = unsafe { R_POS }; // the bytes the failed call had taken are dropped with it; later calls go on from the next unread byte
                continue;
            }
            let (want, next) = reference(&input, pos);
            if got != want { fail(&format!("IN: line result differs at byte {pos}: got {got:?}, want {want:?}")) }
            pos = next;
        }
        ck!(pos == n, "IN: the whole input is delivered");
    }).join().unwrap_or_else(|_| fail("IN: reading panicked"));
}
fn input(seed: u64, budget: u64) {
    let mut r = Rng(seed * 65537 + 9);
    let pool: [&[u8]; 16] = [b"\n", b"\r\n", b"\r", b"a", b"bc", "é".as_bytes(), "→".as_bytes(), "😀".as_bytes(), b"\xff", b"\xc3", b"\0", b"\r\r\n", b"\n\n", b"\xed\xa0\x80", b"\xef\xbb\xbf", b" \t"];
    for it in 0..budget {
        let mut inp = Vec::new();
        for _ in 0..r.below(9) { inp.extend_from_slice(pool[r.below(16) as usize]); }
        if it % 11 == 0 { // straddle the 8 KiB buffer
            let pad = 8192 - r.below(12) as usize;
            let mut v = vec![b'x'; pad];
            if r.below(2) == 0 { let k = r.below(pad as u64) as usize; v[k] = b'\n'; }
            v.extend(inp);
            inp = v;
            if it % 22 == 0 { let mut w = inp.clone(); w.extend(std::iter::repeat(b'y').take(8192 - r.below(3) as usize)); w.extend_from_slice(b"\r\nz"); inp = w; }
        }
        let mut sc: Vec<i64> = (0..r.below(8)).map(|_| match r.below(4) { 0 => -(libc::EINTR as i64), 1 => 1, 2 => 1 + r.below(5) as i64, _ => i64::MAX }).collect();
        if it % 7 == 0 { let k = r.below(sc.len() as u64 + 1) as usize; sc.insert(k, [-5, -11, -9, -1][r.below(4) as usize]); }
        let d = format!("stdin={:?} ({} bytes{}) read() script={sc:?} (positive: chunk limit; -4: EINTR; other negative: errno)", String::from_utf8_lossy(&inp[..inp.len().min(64)]), inp.len(), if inp.len() > 64 { ", padded with x/y around the 8192-byte buffer" } else { "" });
        run_input(inp, sc, &d);
    }
    // exhaustive: every input of up to 4 bytes over a 5-letter alphabet, one byte per read()
    let al = [b'\n', b'\r', b'a', 0xC3, 0xA9];
    for len in 0..=4u32 {
        for code in 0..5u32.pow(len) {
            let mut c = code;
            let inp: Vec<u8> = (0..len).map(|_| { let x = al[(c % 5) as usize]; c /= 5; x }).collect();
            let chunk = if code % 2 == 0 { 1 } else { i64::MAX };
            let d = format!("stdin={inp:?} chunk={chunk}");
            run_input(inp, vec![chunk; 8], &d);
        }
    }
}

// ---------------------------------------------------------------------- tags
fn tags(_seed: u64, budget: u64) {
    let h: Vec<_> = (0..4).map(|t| std::thread::spawn(move || {
        let mut seen = std::collections::HashSet::new();
        for i in 0..budget {
            __tribute_init();
            let x = __tribute_next_tag();
            if !seen.insert(x) { note(&format!("thread {t}: call number {i} returned tag {x} again")); fail("TAG: tags are distinct"); }
        }
        seen.len()
    })).collect();
    for t in h { if t.join().is_err() { fail("TAG: panicked") } }
    unsafe { *CASES += 4 * budget };
}

// ---------------------------------------------------------------------- heap
fn heap(seed: u64, budget: u64, asan: bool) {
    if asan { unsafe extern "C" { fn __asan_init(); } unsafe { __asan_init() } }
    let mut r = Rng(seed * 271 + 11);
    let mut live: Vec<(usize, u64, u8)> = Vec::new();
    note("alloc(0)");
    ck!(unsafe { __tribute_alloc(0) }.is_null(), "HEAP: a zero-sized request returns null");
    unsafe { __tribute_dealloc(std::ptr::null_mut(), 9) };
    let mut hist = String::new();
    for i in 0..budget {
        if hist.len() > 3000 { hist.clear(); hist.push_str(".."); }
        if live.len() < 60 && r.below(5) < 3 {
            let s = match r.below(8) { 0 => 1 + r.below(8), 1 => 1 << r.below(14), 2 => r.below(70000) + 1, 3 => (1 << r.below(12)) + 1, _ => 1 + r.below(64) };
            let _ = write!(hist, " alloc({s})");
            note(&format!("heap step {i}:{hist}"));
            let p = unsafe { __tribute_alloc(s) };
            ck!(!p.is_null(), "HEAP: a request is satisfied");
            ck!(p as usize % 8 == 0, "HEAP: blocks are 8-byte aligned");
            for &(q, t, _) in &live { ck!((p as usize) + s as usize <= q || q + t as usize <= p as usize, "HEAP: live blocks do not overlap"); }
            let f = r.next() as u8;
            unsafe { std::ptr::write_bytes(p, f, s as usize) };
            live.push((p as usize, s, f));
        } else if !live.is_empty() {
            let k = r.below(live.len() as u64) as usize;
            let (p, s, f) = live.swap_remove(k);
            let _ = write!(hist, " dealloc(#{s})");
            note(&format!("heap step {i}:{hist}"));
            let v = unsafe { std::slice::from_raw_parts(p as *const u8, s as usize) };
            ck!(v.iter().all(|&x| x == f), "HEAP: a live block keeps its contents");
            unsafe { __tribute_dealloc(p as *mut u8, s) };
            if asan {
                let v = unsafe { std::slice::from_raw_parts(p as *const u8, s as usize) };
                ck!(v.iter().all(|&x| x == 0xFD), "ASAN: a freed block is poisoned and quarantined");
            }
        }
    }
    for s in [u64::MAX, 1 << 63, i64::MAX as u64 - 6] {
        note(&format!("alloc({s}) must abort"));
        must_abort("HEAP: an unsatisfiable request aborts", || unsafe { __tribute_alloc(s); });
    }
    if asan {
        for s in [1u64, 2, 7, 8, 9, 31, 32, 33, 100] {
            for off in (-32i64..0).chain(s as i64..s as i64 + 32) {
                for v in [0u8, 0xFD, 0xCD, 0x4C] {
                    if v != 0 && off % 5 != 0 && off != -1 && off != s as i64 && off != -32 && off != s as i64 + 31 { continue; }
                    note(&format!("block of {s} bytes, byte {off} overwritten with {v}, then freed"));
                    must_abort("ASAN: a corrupted red-zone byte aborts the process when the block is freed", || unsafe {
                        let p = __tribute_alloc(s);
                        *p.offset(off as isize) = v;
                        __tribute_dealloc(p, s);
                    });
                }
            }
            note(&format!("block of {s} bytes freed twice"));
            must_abort("ASAN: freeing a quarantined block again aborts", || unsafe { let p = __tribute_alloc(s); __tribute_dealloc(p, s); __tribute_dealloc(p, s); });
        }
        // quarantine is bounded: freeing far more than its budget does not keep everything
        let rss = || { let s = std::fs::read_to_string("/proc/self/statm").unwrap(); s.split(' ').nth(1).unwrap().parse::<u64>().unwrap() * 4096 };
        note("freeing 512 blocks of 256 KiB under the sanitizer");
        let before = rss();
        for _ in 0..512 { unsafe { let p = __tribute_alloc(1 << 18); std::ptr::write_bytes(p, 1, 1 << 18); __tribute_dealloc(p, 1 << 18); } }
        ck!(rss() < before + (32 << 20), "ASAN: the quarantine is bounded");
        note("six blocks of 300000 bytes freed in turn: the two newest always fit the budget");
        unsafe {
            let bl: Vec<*mut u8> = (0..6).map(|_| __tribute_alloc(300_000)).collect();
            for i in 0..6 {
                __tribute_dealloc(bl[i], 300_000);
                for k in [i, i.saturating_sub(1)] { ck!(*bl[k].add(1000) == 0xFD && *bl[k].add(299_999) == 0xFD, "ASAN: the newest freed blocks stay quarantined, the oldest go first"); }
            }
        }
        // a small block freed stays poisoned while less than 1 MiB is freed after it
        note("small block freed, then 900 KiB of other frees");
        unsafe {
            let p = __tribute_alloc(24);
            __tribute_dealloc(p, 24);
            for _ in 0..9 { let q = __tribute_alloc(100 << 10); __tribute_dealloc(q, 100 << 10); }
            for i in 0..24 { ck!(*p.add(i) == 0xFD, "ASAN: a freed block stays poisoned while within the quarantine budget"); }
        }
    }
}

// ------------------------------------------------------------------------ rc
fn rc_one<T: Copy>(name: &str, r: &mut Rng) {
    note(&format!("RcBox<{name}>"));
    unsafe {
        let lay = std::alloc::Layout::new::<RcBox<T>>();
        let raw = std::alloc::alloc(lay);
        std::ptr::write_bytes(raw, 0x5A, lay.size());
        let idx = r.next() as u32;
        let b = RcBox::<T>::init(raw, idx);
        ck!(b as *mut u8 == raw, "RC: init returns the block it was given");
        ck!(*(raw as *const u32) == 1, "RC: a fresh object has one reference, at offset 0");
        ck!(*(raw.add(4) as *const u32) == idx, "RC: the type index lives at offset 4");
        let off = RcBox::<T>::payload_offset();
        ck!(off >= 8 && off % std::mem::align_of::<T>() == 0 && off + std::mem::size_of::<T>() <= lay.size(), "RC: the payload follows the header, aligned, inside the object");
        if std::mem::align_of::<T>() <= 8 { ck!(off == 8, "RC: payloads of alignment up to 8 start at the common offset"); }
        for i in 8..lay.size() { ck!(*raw.add(i) == 0x5A, "RC: init leaves the payload"); }
        let p = &raw mut (*b).payload;
        ck!(p as *mut u8 == raw.add(off) && (*b).payload_ptr() == p, "RC: payload_ptr points at the payload");
        ck!(RcBox::<T>::from_payload_ptr(p) == b as *const _ && RcBox::<T>::from_payload_ptr_mut(p) == b, "RC: header recovered from payload");
        for _ in 0..50 {
            let c = r.next() as u32;
            if c == u32::MAX { continue; }
            (*b).refcount.store(c, std::sync::atomic::Ordering::Relaxed);
            (*b).retain();
            ck!(*(raw as *const u32) == c + 1 && *(raw.add(4) as *const u32) == idx, "RC: retain adds exactly one reference");
        }
        std::alloc::dealloc(raw, lay);
    }
}
fn rc(seed: u64, budget: u64) {
    #[derive(Clone, Copy)] #[repr(C, align(16))] struct A16([u8; 17]);
    #[derive(Clone, Copy)] #[repr(C, align(64))] struct A64([u8; 2]);
    let mut r = Rng(seed * 17 + 1);
    note("header constants");
    ck!(tribute_rc::REFCOUNT_OFFSET == 0 && tribute_rc::RTTI_IDX_OFFSET == 4 && tribute_rc::PAYLOAD_OFFSET == 8 && tribute_rc::HEADER_SIZE == 8, "RC: header constants");
    let _ = (A16([0; 17]).0, A64([0; 2]).0);
    for _ in 0..budget {
        rc_one::<()>("()", &mut r); rc_one::<u8>("u8", &mut r); rc_one::<[u8; 3]>("[u8;3]", &mut r); rc_one::<u16>("u16", &mut r);
        rc_one::<u32>("u32", &mut r); rc_one::<u64>("u64", &mut r); rc_one::<f64>("f64", &mut r); rc_one::<u128>("u128", &mut r);
        rc_one::<A16>("align 16", &mut r); rc_one::<A64>("align 64", &mut r);
    }
    // concurrent retains are not lost
    note("8 threads x 20000 retains of one object");
    let b: &'static RcBox<u64> = unsafe { &*RcBox::<u64>::init(__tribute_alloc(16), 3) };
    let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(move || for _ in 0..20000 { b.retain() })).collect();
    for h in hs { h.join().unwrap(); }
    ck!(b.refcount.load(std::sync::atomic::Ordering::Relaxed) == 160001, "RC: concurrent retains are all counted");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (what, seed, budget) = (a[1].as_str(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), NOTE_CAP + 64, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        CASES = p as *mut u64;
        NOTE = (p as *mut u8).add(64);
    }
    let st = forked(|| match what {
        "evidence" => evidence(seed, budget),
        "bytes" => bytes(seed, budget),
        "output" => output(seed, budget),
        "input" => input(seed, budget),
        "tags" => tags(seed, budget),
        "heap" => heap(seed, budget, false),
        "asan" => heap(seed, budget, true),
        "rc" => rc(seed, budget),
        _ => unsafe { libc::_exit(3) },
    });
    let cases = unsafe { *CASES };
    if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 { println!("OK\t{cases}"); std::process::exit(0) }
    if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 10 { std::process::exit(10) }
    eprintln!("FAIL\tthe process died (wait status {st:#x}) during the call\t{}", cur());
    std::process::exit(10)
}
