// Contracts of the runtime ABI, written against the public `__tribute_*` names only.
// Appended to crates/tribute-runtime/src/lib.rs in the overlay (cfg(kani)).
#[cfg(kani)]
mod verif_abi {
    use super::*;
    use libc::model as m;

    // ---------------------------------------------------------------- evidence
    #[derive(Clone, Copy)]
    struct Ins { id: i32, tag: i32, tr: usize, h: usize }
    fn any_ins() -> Ins { Ins { id: kani::any(), tag: kani::any(), tr: kani::any(), h: kani::any() } }
    unsafe fn ext(ev: *const Evidence, i: Ins) -> *mut Evidence {
        unsafe { __tribute_evidence_extend(ev, i.id, i.tag, i.tr as *const u8, i.h as *const u8) }
    }
    /// innermost insertion for `id` among `hist[..n]`
    fn spec<const N: usize>(hist: &[Ins; N], n: usize, id: i32) -> Option<Ins> {
        let mut r = None;
        let mut k = 0;
        while k < n { if hist[k].id == id { r = Some(hist[k]); } k += 1; }
        r
    }
    unsafe fn check_lookup(ev: *const Evidence, id: i32, want: Ins) {
        unsafe {
            assert!(__tribute_evidence_lookup(ev, id) == want.tag, "EV: prompt tag of the innermost handler");
            assert!(__tribute_evidence_lookup_tr(ev, id) as usize == want.tr, "EV: tail-resumptive dispatch of the innermost handler");
            assert!(__tribute_evidence_lookup_handler(ev, id) as usize == want.h, "EV: handler dispatch of the innermost handler");
        }
    }
    fn evidence_hist<const N: usize>() {
        let mut hist = [Ins { id: 0, tag: 0, tr: 0, h: 0 }; N];
        let mut evs: [*mut Evidence; N] = [core::ptr::null_mut(); N];
        let empty = __tribute_evidence_empty();
        let mut cur = empty;
        let mut k = 0;
        while k < N {
            hist[k] = any_ins();
            let nxt = unsafe { ext(cur, hist[k]) };
            assert!(nxt != cur, "EV: extend returns a new evidence");
            evs[k] = nxt;
            cur = nxt;
            k += 1;
        }
        // look up an arbitrary inserted id in an arbitrary (possibly old) evidence
        let v: usize = kani::any();
        kani::assume(v < N);
        let w: usize = kani::any();
        kani::assume(w <= v);
        let id = hist[w].id;
        let want = spec(&hist, v + 1, id).unwrap();
        kani::cover!(v + 1 < N, "an older evidence is queried");
        kani::cover!(want.tag != hist[w].tag, "a nested handler for the same ability shadows");
        unsafe { check_lookup(evs[v], id, want) };
    }
    #[kani::proof]
    #[kani::unwind(8)]
    fn evidence_3() { evidence_hist::<3>() }
    /// two evidences extended from the same parent never see each other's handlers
    #[kani::proof]
    #[kani::unwind(8)]
    fn evidence_branch() {
        let (p, a, b) = (any_ins(), any_ins(), any_ins());
        let root = __tribute_evidence_empty();
        unsafe {
            let ep = ext(root, p);
            let ea = ext(ep, a);
            let eb = ext(ep, b);
            check_lookup(ep, p.id, p);
            check_lookup(ea, p.id, if a.id == p.id { a } else { p });
            check_lookup(ea, a.id, a);
            check_lookup(eb, p.id, if b.id == p.id { b } else { p });
            check_lookup(eb, b.id, b);
        }
        kani::cover!(a.id == p.id && b.id != p.id, "one branch shadows");
    }

    // ------------------------------------------------------------------- bytes
    const BMAX: usize = 3;
    struct Buf { data: [u8; BMAX], rc: *mut tribute_rc::RcBox<TributeBytes> }
    /// a live Bytes value: RC box whose payload is (ptr, len) with len <= BMAX
    fn any_bytes(data: &[u8; BMAX], len: usize, count: u32) -> *mut TributeBytes {
        unsafe {
            let raw = __tribute_alloc(core::mem::size_of::<tribute_rc::RcBox<TributeBytes>>() as u64);
            let rc = tribute_rc::RcBox::<TributeBytes>::init(raw, 0);
            (*rc).refcount.store(count, core::sync::atomic::Ordering::Relaxed);
            (*rc).payload.ptr = if len == 0 { core::ptr::null() } else { data.as_ptr() };
            (*rc).payload.len = len as u64;
            &raw mut (*rc).payload
        }
    }
    fn any_len() -> usize { let n: usize = kani::any(); kani::assume(n <= BMAX); n }
    fn count_of(b: *const TributeBytes) -> u32 {
        unsafe { (*tribute_rc::RcBox::from_payload_ptr(b)).refcount.load(core::sync::atomic::Ordering::Relaxed) }
    }
    fn rtti_of(b: *const TributeBytes) -> u32 {
        unsafe { (*tribute_rc::RcBox::from_payload_ptr(b)).rtti_idx }
    }

    #[kani::proof]
    fn bytes_len() {
        let data = [0u8; BMAX];
        let len: u64 = kani::any();
        kani::assume(len <= u32::MAX as u64);
        let b = TributeBytes { ptr: data.as_ptr(), len };
        assert!(unsafe { __tribute_bytes_len(&b) } as u64 == len, "BYTES: len is the stored length");
        assert!(b.len == len, "BYTES: len leaves the value unchanged");
    }

    #[kani::proof]
    #[kani::unwind(8)]
    fn bytes_range_equal() {
        let (da, db): ([u8; BMAX], [u8; BMAX]) = (kani::any(), kani::any());
        let (la, lb) = (any_len(), any_len());
        let a = TributeBytes { ptr: if la == 0 { core::ptr::null() } else { da.as_ptr() }, len: la as u64 };
        let b = TributeBytes { ptr: if lb == 0 { core::ptr::null() } else { db.as_ptr() }, len: lb as u64 };
        let (sa, sb, n): (u32, u32, u32) = (kani::any(), kani::any(), kani::any());
        let r = unsafe { __tribute_bytes_range_equal(&a, sa, &b, sb, n) };
        let inside = sa as u64 + n as u64 <= la as u64 && sb as u64 + n as u64 <= lb as u64;
        let mut eq = inside;
        if inside {
            let mut i = 0usize;
            while i < n as usize {
                if da[sa as usize + i] != db[sb as usize + i] { eq = false; }
                i += 1;
            }
        }
        assert!(r == eq as u32, "BYTES: range_equal is 1 exactly when both ranges lie inside and agree");
        kani::cover!(inside && !eq, "ranges inside and different");
        kani::cover!(inside && eq && n == 2, "equal ranges of length two");
        kani::cover!(!inside && sa > 3, "out of range");
    }

    #[kani::proof]
    #[kani::unwind(8)]
    fn bytes_concat() {
        let (da, db): ([u8; BMAX], [u8; BMAX]) = (kani::any(), kani::any());
        let (la, lb) = (any_len(), any_len());
        let (ca, cb): (u32, u32) = (kani::any(), kani::any());
        kani::assume(ca >= 1 && cb >= 1);
        let a = any_bytes(&da, la, ca);
        let b = any_bytes(&db, lb, cb);
        let r = unsafe { __tribute_bytes_concat(a, b) };
        let (rp, rl) = unsafe { ((*r).ptr, (*r).len) };
        assert!(rl == (la + lb) as u64, "BYTES: concat length is the sum");
        assert!(r != a && r != b, "BYTES: concat returns a fresh value");
        let i: usize = kani::any();
        kani::assume(i < la + lb);
        let got = unsafe { *rp.add(i) };
        let want = if i < la { da[i] } else { db[i - la] };
        assert!(got == want, "BYTES: concat content is left then right");
        assert!(rp != da.as_ptr() && rp != db.as_ptr(), "BYTES: concat owns a fresh buffer");
        assert!(count_of(r) == 1, "BYTES: concat result starts with one reference");
        assert!(rtti_of(r) == 0, "BYTES: concat result carries the Bytes type index");
        assert!(count_of(a) == ca && count_of(b) == cb, "BYTES: concat leaves the operands' counts alone");
        unsafe {
            assert!((*a).len == la as u64 && (*b).len == lb as u64, "BYTES: concat leaves the operands alone");
        }
        kani::cover!(la == 2 && lb == 3 && i == 3, "second operand's byte");
    }
    #[kani::proof]
    #[kani::unwind(4)]
    fn bytes_concat_empty() {
        let d = [0u8; BMAX];
        let a = any_bytes(&d, 0, 1);
        let b = any_bytes(&d, 0, 1);
        let r = unsafe { __tribute_bytes_concat(a, b) };
        unsafe { assert!((*r).len == 0, "BYTES: concat of empty values is empty"); }
        assert!(count_of(r) == 1, "BYTES: concat result starts with one reference");
    }
    #[kani::proof]
    #[kani::unwind(4)]
    fn bytes_concat_overflow() {
        let d = [0u8; BMAX];
        let (la, lb): (u64, u64) = (kani::any(), kani::any());
        kani::assume(la.checked_add(lb).is_none());
        let a = TributeBytes { ptr: d.as_ptr(), len: la };
        let b = TributeBytes { ptr: d.as_ptr(), len: lb };
        unsafe {
            m::ABORT_EXPECTED = true;
            __tribute_bytes_concat(&a, &b);
        }
        assert!(false, "BYTES: concat whose length overflows aborts");
    }

    #[kani::proof]
    #[kani::unwind(8)]
    fn bytes_slice_in() {
        let d: [u8; BMAX] = kani::any();
        let l = any_len();
        let c: u32 = kani::any();
        kani::assume(c >= 1 && c < u32::MAX);
        let b = any_bytes(&d, l, c);
        let (s, e): (u32, u32) = (kani::any(), kani::any());
        kani::assume(s <= e && e as usize <= l);
        let r = unsafe { __tribute_bytes_slice_or_panic(b, s, e) };
        let (rp, rl) = unsafe { ((*r).ptr, (*r).len) };
        assert!(rl == (e - s) as u64, "BYTES: slice length is end - start");
        assert!(r != b, "BYTES: slice returns a fresh value");
        assert!(count_of(r) == 1, "BYTES: slice result starts with one reference");
        assert!(rtti_of(r) == 0, "BYTES: slice result carries the Bytes type index");
        assert!(count_of(b) == c + 1, "BYTES: slice retains the original exactly once");
        unsafe { assert!((*b).len == l as u64, "BYTES: slice leaves the original alone"); }
        kani::cover!(s > 0 && e as usize == l, "suffix slice");
        if s < e {
            let i: u32 = kani::any();
            kani::assume(i < e - s);
            let got = unsafe { *rp.add(i as usize) };
            assert!(got == d[(s + i) as usize], "BYTES: slice content is the range");
        }
    }
    #[kani::proof]
    #[kani::unwind(8)]
    fn bytes_slice_out() {
        let d: [u8; BMAX] = kani::any();
        let l = any_len();
        let b = any_bytes(&d, l, 1);
        let (s, e): (u32, u32) = (kani::any(), kani::any());
        kani::assume(!(s <= e && e as usize <= l));
        unsafe {
            m::ABORT_EXPECTED = true;
            __tribute_bytes_slice_or_panic(b, s, e);
        }
        assert!(false, "BYTES: slice outside the value aborts");
    }

    // ------------------------------------------------------------------ output
    fn check_out(want: &[u8]) {
        unsafe {
            assert!(!m::OUT_OTHER_FD, "OUT: only standard output is written");
            assert!(!m::WRITE_AFTER_FAIL, "OUT: nothing is written after a hard error");
            if m::WRITE_FAILED {
                assert!(m::OUT_LEN <= want.len(), "OUT: a prefix is written before a hard error");
            } else {
                assert!(m::OUT_LEN == want.len(), "OUT: every byte is written exactly once");
            }
            let i: usize = kani::any();
            kani::assume(i < m::OUT_LEN);
            assert!(m::OUT[i] == want[i], "OUT: bytes are written in order");
        }
    }
    #[kani::proof]
    #[kani::unwind(8)]
    fn out_io_write() {
        let d: [u8; BMAX] = kani::any();
        let l = any_len();
        let nl: u32 = kani::any();
        kani::assume(nl <= 1);
        unsafe { m::WRITE_EINTR_LEFT = 1; m::WRITE_MAY_FAIL = false; }
        let b = TributeBytes { ptr: if l == 0 { core::ptr::null() } else { d.as_ptr() }, len: l as u64 };
        unsafe { __tribute_io_write(&b, nl) };
        let mut want = [0u8; BMAX + 1];
        let mut i = 0;
        while i < l { want[i] = d[i]; i += 1; }
        let mut n = l;
        if nl == 1 { want[n] = b'\n'; n += 1; }
        kani::cover!(unsafe { m::WRITE_EINTR_LEFT == 0 }, "interrupted");
        kani::cover!(l == 3 && nl == 1, "longest output");
        check_out(&want[..n]);
    }
    #[kani::proof]
    #[kani::unwind(8)]
    fn out_bytes_print() {
        let d: [u8; BMAX] = kani::any();
        let l = any_len();
        unsafe { m::WRITE_EINTR_LEFT = 2; m::WRITE_MAY_FAIL = true; }
        let b = TributeBytes { ptr: if l == 0 { core::ptr::null() } else { d.as_ptr() }, len: l as u64 };
        unsafe { __tribute_bytes_print(&b) };
        kani::cover!(unsafe { m::WRITE_FAILED && m::OUT_LEN == 1 }, "failure half way");
        check_out(&d[..l]);
    }
    #[kani::proof]
    #[kani::unwind(8)]
    fn out_print_bytes() {
        let d: [u8; BMAX] = kani::any();
        let l = any_len();
        unsafe { m::WRITE_EINTR_LEFT = 2; m::WRITE_MAY_FAIL = true; }
        unsafe { __tribute_print_bytes(if l == 0 { core::ptr::null() } else { d.as_ptr() }, l as u64) };
        check_out(&d[..l]);
    }
    #[kani::proof]
    #[kani::unwind(8)]
    fn out_newline() {
        unsafe { m::WRITE_EINTR_LEFT = 2; m::WRITE_MAY_FAIL = false; }
        __tribute_print_newline();
        check_out(b"\n");
    }

    // ------------------------------------------------------------------- input
    fn utf8_ok(b: &[u8]) -> bool {
        // RFC 3629 well-formedness, independent of core::str
        let n = b.len();
        let mut i = 0;
        while i < n {
            let c = b[i];
            let (len, lo, hi): (usize, u8, u8) = if c < 0x80 { (1, 0, 0) }
                else if c >= 0xC2 && c <= 0xDF { (2, 0x80, 0xBF) }
                else if c == 0xE0 { (3, 0xA0, 0xBF) }
                else if c == 0xED { (3, 0x80, 0x9F) }
                else if c >= 0xE1 && c <= 0xEF { (3, 0x80, 0xBF) }
                else if c == 0xF0 { (4, 0x90, 0xBF) }
                else if c == 0xF4 { (4, 0x80, 0x8F) }
                else if c >= 0xF1 && c <= 0xF3 { (4, 0x80, 0xBF) }
                else { return false };
            if i + len > n { return false; }
            if len >= 2 && !(b[i + 1] >= lo && b[i + 1] <= hi) { return false; }
            if len >= 3 && (b[i + 2] & 0xC0) != 0x80 { return false; }
            if len >= 4 && (b[i + 3] & 0xC0) != 0x80 { return false; }
            i += len;
        }
        true
    }
    fn utf8_stub(b: &[u8]) -> Result<&str, core::str::Utf8Error> {
        if utf8_ok(b) { Ok(unsafe { core::str::from_utf8_unchecked(b) }) }
        else { Err(unsafe { core::mem::zeroed() }) }
    }
    unsafe fn bytes_are(b: *const TributeBytes, want: &[u8]) {
        unsafe {
            assert!(!b.is_null(), "IN: payload present");
            assert!((*b).len == want.len() as u64, "IN: line length");
            assert!(count_of(b) == 1, "IN: payload starts with one reference");
            let i: usize = kani::any();
            if i < want.len() {
                assert!(*(*b).ptr.add(i) == want[i], "IN: line content");
            }
        }
    }
    /// check one result against the reference for the input that starts at `from`; returns the new position
    unsafe fn check_line(r: *const NativeReadLineResult, input: &[u8], from: usize) -> usize {
        unsafe {
            let len = input.len();
            if m::READ_FAILED {
                assert!((*r).tag == IO_READ_SYSTEM, "IN: a hard read error is reported as a system error");
                assert!((*r).code == m::READ_ERR, "IN: the error code is the one read() gave");
                bytes_are((*r).message, b"stdin read failed");
                assert!((*r).bytes.is_null(), "IN: no line on error");
                return len;
            }
            if from == len {
                assert!((*r).tag == IO_READ_END_OF_FILE, "IN: end of file with nothing read");
                assert!((*r).bytes.is_null() && (*r).message.is_null() && (*r).code == 0, "IN: end of file carries no payload");
                return len;
            }
            let mut e = from;
            while e < len && input[e] != b'\n' { e += 1; }
            let (mut stop, next) = if e < len { (e, e + 1) } else { (e, e) };
            if e < len && stop > from && input[stop - 1] == b'\r' { stop -= 1; }
            let line = &input[from..stop];
            if utf8_ok(line) {
                assert!((*r).tag == IO_READ_LINE, "IN: a valid line is returned as a line");
                assert!((*r).code == 0 && (*r).message.is_null(), "IN: a line carries no error");
                bytes_are((*r).bytes, line);
            } else {
                assert!((*r).tag == IO_READ_INVALID_ENCODING, "IN: invalid UTF-8 is reported, not returned");
                assert!((*r).bytes.is_null() && (*r).message.is_null() && (*r).code == 0, "IN: invalid encoding carries no payload");
            }
            next
        }
    }
    fn setup_input<const N: usize>(eintr: u32, fail: bool) -> [u8; N] {
        let data: [u8; N] = kani::any();
        unsafe {
            let mut i = 0;
            while i < N { m::INPUT[i] = data[i]; i += 1; }
            m::INPUT_LEN = N;
            m::INPUT_POS = 0;
            m::READ_EINTR_LEFT = eintr;
            m::READ_MAY_FAIL = fail;
        }
        __tribute_init();
        data
    }
    fn lines<const N: usize>(calls: usize, eintr: u32, fail: bool) {
        let data = setup_input::<N>(eintr, fail);
        let mut pos = 0;
        let mut k = 0;
        while k < calls {
            let r = __tribute_io_read_line();
            assert!(!r.is_null(), "IN: a result descriptor is returned");
            pos = unsafe { check_line(r, &data, pos) };
            if unsafe { m::READ_FAILED } { break; }
            unsafe { __tribute_io_read_line_result_dealloc(r) };
            k += 1;
        }
        kani::cover!(pos == N, "input consumed");
    }
    #[kani::proof]
    #[kani::unwind(7)]
    #[kani::stub(core::str::from_utf8, utf8_stub)]
    fn in_lines_2() { lines::<2>(3, 1, false) }
    #[kani::proof]
    #[kani::unwind(7)]
    #[kani::stub(core::str::from_utf8, utf8_stub)]
    fn in_lines_3() { lines::<3>(2, 1, false) }
    #[kani::proof]
    #[kani::unwind(7)]
    #[kani::stub(core::str::from_utf8, utf8_stub)]
    fn in_error() { lines::<2>(2, 1, true) }

    // --------------------------------------------------------------------- tags
    #[kani::proof]
    #[kani::unwind(4)]
    fn tags_abi() {
        __tribute_init();
        let a = __tribute_next_tag();
        __tribute_init();
        let b = __tribute_next_tag();
        let c = __tribute_next_tag();
        let d = __tribute_next_tag();
        assert!(a != b && a != c && a != d && b != c && b != d && c != d, "TAG: tags are distinct");
    }

    // --------------------------------------------------------------------- heap
    #[kani::proof]
    #[kani::unwind(3)]
    fn heap_zero() {
        let p = unsafe { __tribute_alloc(0) };
        assert!(p.is_null(), "HEAP: a zero-sized request returns null");
        let s: u64 = kani::any();
        unsafe { __tribute_dealloc(core::ptr::null_mut(), s) };
    }
    #[kani::proof]
    #[kani::unwind(3)]
    fn heap_alloc() {
        let s: u64 = kani::any();
        kani::assume(s >= 1 && s <= 4096);
        let p = unsafe { __tribute_alloc(s) };
        assert!(!p.is_null(), "HEAP: a request is satisfied or the process aborts");
        assert!(p as usize % 8 == 0, "HEAP: blocks are 8-byte aligned");
        let i: u64 = kani::any();
        kani::assume(i < s);
        let q = unsafe { __tribute_alloc(8) };
        unsafe {
            *p.add(i as usize) = 0xA5; // every byte of the block is writable
            *(q as *mut u64) = 0;
            assert!(*p.add(i as usize) == 0xA5, "HEAP: live blocks do not overlap");
            __tribute_dealloc(q, 8);
            assert!(*p.add(i as usize) == 0xA5, "HEAP: freeing one block leaves others");
            __tribute_dealloc(p, s);
        }
    }
    #[kani::proof]
    #[kani::unwind(3)]
    fn heap_huge() {
        let s: u64 = kani::any();
        kani::assume(s > isize::MAX as u64 - 7);
        unsafe {
            m::ABORT_EXPECTED = true;
            __tribute_alloc(s);
        }
        assert!(false, "HEAP: an unsatisfiable request aborts");
    }
}
