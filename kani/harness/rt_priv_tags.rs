// One-step contract of the tag counter from an arbitrary counter value: complete (loop-free).
#[cfg(kani)]
mod verif_priv_tags {
    use super::*;
    pub(crate) fn step() {
        let st = ThreadState::new();
        let c: i32 = kani::any();
        st.tag_counter.set(c);
        let t1 = st.next_tag();
        let t2 = st.next_tag();
        let t3 = st.next_tag();
        let d = t2.wrapping_sub(t1);
        assert!(d == 1 || d == -1, "TAG: successive tags differ by one, so 2^32 successive tags are distinct");
        assert!(t3.wrapping_sub(t2) == d, "TAG: successive tags keep the same direction");
    }
    #[kani::proof]
    #[kani::unwind(2)]
    fn tags_step() { step() }
}
