// Contracts of tribute_rc::RcBox, for payloads of every alignment class. Appended to tribute-rc's lib.rs.
#[cfg(kani)]
mod verif_rc {
    use super::*;
    #[repr(align(1))] #[derive(Clone, Copy)] struct A1([u8; 3]);
    #[repr(C, align(4))] #[derive(Clone, Copy)] struct A4([u8; 5]);
    #[repr(C, align(16))] #[derive(Clone, Copy)] struct A16([u8; 17]);
    #[repr(C, align(64))] #[derive(Clone, Copy)] struct A64([u8; 2]);

    #[kani::proof]
    fn rc_layout() {
        assert!(REFCOUNT_OFFSET == 0, "RC: the count is the first word");
        assert!(RTTI_IDX_OFFSET == 4, "RC: the type index is the second word");
        assert!(PAYLOAD_OFFSET == 8 && HEADER_SIZE == 8, "RC: the header is eight bytes");
    }
    fn check<T: Copy>() {
        let mut slot: core::mem::MaybeUninit<RcBox<T>> = core::mem::MaybeUninit::uninit();
        let raw = slot.as_mut_ptr() as *mut u8;
        let idx: u32 = kani::any();
        unsafe {
            let b = RcBox::<T>::init(raw, idx);
            assert!(b as *mut u8 == raw, "RC: init returns the block it was given");
            assert!((*b).refcount.load(Ordering::Relaxed) == 1, "RC: a fresh object has one reference");
            assert!((*b).rtti_idx == idx, "RC: a fresh object carries its type index");
            assert!(*(raw as *const u32) == 1, "RC: the count lives at offset 0");
            assert!(*(raw.add(4) as *const u32) == idx, "RC: the type index lives at offset 4");
            let off = RcBox::<T>::payload_offset();
            assert!(off >= 8 && off % core::mem::align_of::<T>() == 0, "RC: the payload follows the header, aligned");
            assert!(off + core::mem::size_of::<T>() <= core::mem::size_of::<RcBox<T>>(), "RC: the payload lies inside the object");
            if core::mem::align_of::<T>() <= 8 { assert!(off == PAYLOAD_OFFSET, "RC: payloads of alignment up to 8 start at the common offset"); }
            let p = &raw mut (*b).payload;
            assert!(p as *mut u8 == raw.add(off), "RC: payload_offset is the payload's offset");
            assert!((*b).payload_ptr() == p, "RC: payload_ptr points at the payload");
            assert!(RcBox::<T>::from_payload_ptr(p) == b as *const _, "RC: header recovered from payload");
            assert!(RcBox::<T>::from_payload_ptr_mut(p) == b, "RC: header recovered from payload (mut)");
            // retain from an arbitrary count
            let c: u32 = kani::any();
            kani::assume(c < u32::MAX);
            (*b).refcount.store(c, Ordering::Relaxed);
            (*b).retain();
            assert!((*b).refcount.load(Ordering::Relaxed) == c + 1, "RC: retain adds exactly one reference");
            assert!((*b).rtti_idx == idx, "RC: retain leaves the type index");
        }
    }
    #[kani::proof] fn rc_unit() { check::<()>() }
    #[kani::proof] fn rc_a1() { check::<A1>() }
    #[kani::proof] fn rc_u16() { check::<u16>() }
    #[kani::proof] fn rc_a4() { check::<A4>() }
    #[kani::proof] fn rc_u64() { check::<u64>() }
    #[kani::proof] fn rc_a16() { check::<A16>() }
    #[kani::proof] fn rc_a64() { check::<A64>() }
    /// init writes the header only: a payload already in place is not disturbed
    #[kani::proof]
    fn rc_init_frame() {
        let mut slot: core::mem::MaybeUninit<RcBox<u64>> = core::mem::MaybeUninit::uninit();
        let v: u64 = kani::any();
        unsafe {
            let b = slot.as_mut_ptr();
            (*b).payload = v;
            RcBox::<u64>::init(b as *mut u8, kani::any());
            assert!((*b).payload == v, "RC: init leaves the payload");
            (*b).retain();
            assert!((*b).payload == v, "RC: retain leaves the payload");
        }
    }
}
