// One-step contracts of Evidence::{extend,lookup} from an arbitrary well-formed state
// (strictly sorted by ability id), for evidences of up to EVMAX markers.
#[cfg(kani)]
mod verif_priv_evidence {
    use super::*;
    const EVMAX: usize = 5;
    fn any_marker() -> Marker {
        Marker { ability_id: kani::any(), prompt_tag: kani::any(),
                 tr_dispatch_fn: kani::any::<usize>() as *const u8,
                 handler_dispatch: kani::any::<usize>() as *const u8 }
    }
    fn wf(e: &Evidence) -> bool {
        let mut i = 1;
        while i < e.markers.len() {
            if e.markers[i - 1].ability_id >= e.markers[i].ability_id { return false; }
            i += 1;
        }
        true
    }
    fn any_evidence() -> Evidence {
        let mut e = Evidence::new();
        let n: usize = kani::any();
        kani::assume(n <= EVMAX);
        let mut i = 0;
        while i < n { e.markers.push(any_marker()); i += 1; }
        kani::assume(wf(&e));
        e
    }
    #[kani::proof]
    #[kani::unwind(8)]
    fn evidence_step_extend() {
        let e = any_evidence();
        let x = any_marker();
        let n = e.extend(x);
        assert!(wf(&n), "EV: extend keeps the representation invariant");
        assert!(wf(&e), "EV: extend leaves its argument well-formed");
        kani::cover!(e.markers.len() == EVMAX && n.markers.len() == EVMAX, "replacement at the largest size");
        kani::cover!(n.markers.len() == EVMAX + 1, "insertion at the largest size");
        // whole-view postcondition: n == e[x.id := x]
        let k: usize = kani::any();
        kani::assume(k < n.markers.len());
        let mk = n.markers[k];
        if mk.ability_id == x.ability_id {
            assert!(mk == x, "EV: the new handler is the one found for its ability");
        } else {
            let mut found = false;
            let mut i = 0;
            while i < e.markers.len() { if e.markers[i] == mk { found = true; } i += 1; }
            assert!(found, "EV: every other handler is an old one, unchanged");
        }
        let o: usize = kani::any();
        kani::assume(o < e.markers.len());
        let om = e.markers[o];
        let mut present = om.ability_id == x.ability_id;
        let mut hasx = false;
        let mut i = 0;
        while i < n.markers.len() {
            if n.markers[i] == om { present = true; }
            if n.markers[i] == x { hasx = true; }
            i += 1;
        }
        assert!(present, "EV: no other handler is lost");
        assert!(hasx, "EV: the new handler is present");
    }
    #[kani::proof]
    #[kani::unwind(8)]
    fn evidence_step_lookup() {
        let e = any_evidence();
        let k: usize = kani::any();
        kani::assume(k < e.markers.len());
        let want = e.markers[k];
        assert!(*e.lookup(want.ability_id) == want, "EV: lookup returns the marker of that ability");
        kani::cover!(k == 4, "last of the largest");
    }
}
