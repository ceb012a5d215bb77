// Contracts of the address-sanitizing allocator, through the public ABI (__asan_init, __tribute_alloc,
// __tribute_dealloc). Appended to asan.rs.
#[cfg(kani)]
mod verif_priv_asan {
    use super::*;
    use libc::model as m;
    unsafe fn a(size: u64) -> *mut u8 { unsafe { crate::__tribute_alloc(size) } }
    unsafe fn d(p: *mut u8, size: u64) { unsafe { crate::__tribute_dealloc(p, size) } }

    fn clean(s: u64) {
        __asan_init();
        unsafe {
            let p = a(s);
            assert!(!p.is_null() && p as usize % 8 == 0, "ASAN: blocks are 8-byte aligned");
            // every payload byte is usable, and using it is never reported
            let i: u64 = kani::any();
            kani::assume(i < s);
            let v: u8 = kani::any();
            *p.add(i as usize) = v;
            assert!(*p.add(i as usize) == v);
            d(p, s); // must not abort: abort() is not expected here
            // the block is poisoned and still mapped (quarantined, not freed)
            assert!(*p.add(i as usize) == 0xFD, "ASAN: a freed block is poisoned and quarantined");
        }
    }
    #[kani::proof] #[kani::unwind(34)] #[kani::stub(format_redzone_error, fmt_stub)] fn asan_clean_1() { clean(1) }
    #[kani::proof] #[kani::unwind(34)] #[kani::stub(format_redzone_error, fmt_stub)] fn asan_clean_13() { clean(13) }
    fn overflow(s: u64) {
        __asan_init();
        unsafe {
            let p = a(s);
            let off: isize = kani::any();
            kani::assume((off >= -32 && off < 0) || (off >= s as isize && off < s as isize + 32));
            let v: u8 = kani::any();
            kani::assume(v != 0xCC);
            *p.offset(off) = v;
            kani::cover!(off < 0, "underflow");
            kani::cover!(off == s as isize + 31, "last right red-zone byte");
            m::ABORT_EXPECTED = true;
            d(p, s);
        }
        assert!(false, "ASAN: a corrupted red-zone byte aborts the process when the block is freed");
    }
    #[kani::proof] #[kani::unwind(34)] #[kani::stub(format_redzone_error, fmt_stub)] fn asan_overflow_1() { overflow(1) }
    #[kani::proof] #[kani::unwind(34)] #[kani::stub(format_redzone_error, fmt_stub)] fn asan_overflow_13() { overflow(13) }
    #[kani::proof]
    #[kani::unwind(34)]
    #[kani::stub(format_redzone_error, fmt_stub)]
    fn asan_double_free() {
        __asan_init();
        unsafe {
            let p = a(5);
            d(p, 5);
            m::ABORT_EXPECTED = true;
            d(p, 5);
        }
        assert!(false, "ASAN: freeing a quarantined block again aborts");
    }
    /// quarantine: with the (overlay) budget of 160 bytes, two 72-byte blocks stay poisoned, the
    /// third free evicts exactly the oldest; evicted blocks are released with the size they were allocated with
    #[kani::proof]
    #[kani::unwind(34)]
    #[kani::stub(format_redzone_error, fmt_stub)]
    fn asan_quarantine() {
        __asan_init();
        unsafe {
            let p = a(8); let q = a(8); let r = a(8);
            d(p, 8);
            d(q, 8);
            assert!(*p == 0xFD && *q == 0xFD, "ASAN: blocks within the quarantine budget are kept poisoned");
            d(r, 8);
            assert!(*q == 0xFD && *r == 0xFD, "ASAN: eviction takes the oldest block only");
        }
    }
    #[kani::proof]
    #[kani::unwind(34)]
    fn asan_huge() {
        __asan_init();
        let s: u64 = kani::any();
        kani::assume(s > isize::MAX as u64 - 7 - 64);
        unsafe {
            m::ABORT_EXPECTED = true;
            a(s);
        }
        assert!(false, "ASAN: an unsatisfiable request aborts");
    }
    fn fmt_stub<'x>(buf: &'x mut [u8; 256], _s: &str, _o: usize, _e: u8, _a: u8) -> &'x [u8] { &buf[..1] }
}
