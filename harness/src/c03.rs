//! List: every pair of operations (push and pop at either end, clear, extend by 2, writes through front_mut,
//! back_mut, iter_mut) from every list of 0..=3 elements (5 in the thorough tier), every single operation with the
//! raw ring looked at in both directions, lists made by the crate and in C++ layout, a list of 9; values symbolic.
use crate::el::*;
use crate::env::{outer, split};
use crate::mlist::*;
use crate::sym;
use std::mem::MaybeUninit;

fn pairs(n: usize) {
    outer(OPS, |a| split(OPS, |b| step2::<u32, Plain, 12>(n, a, b)));
}
harnesses! {
    pairs0 [14] { pairs(0); }
    pairs1 [14] { pairs(1); }
    pairs2 [14] { pairs(2); }
    pairs3 [14] { pairs(3); }
    x_pairs4 [14] { pairs(4); }
    x_pairs5 [14] { pairs(5); }
    ring [14] { outer(5, |n| split(OPS, |a| step_ring::<u32, Plain, 12>(n as usize, a))); }
    ring12 [14] { outer(3, |n| split(OPS, |a| step_ring::<E12, Plain, 12>(n as usize, a))); }
    ring8 [14] { outer(3, |n| split(OPS, |a| step_ring::<u8, Plain, 12>(n as usize, a))); }
    long [14] { split(OPS, |a| step_ring::<u32, Plain, 14>(9, a)); }
    fresh_list [14] {
        split(OPS, |a| {
            let mut slot = MaybeUninit::uninit();
            let l = fresh::<u32, Plain>(&mut slot);
            let mut m = Seq::<8>::new();
            same_list(l, &m);
            crate::mlist::ring(l, &m);
            op(l, &mut m, a);
            op(l, &mut m, PUSH_FRONT);
            same_list(l, &m);
            crate::mlist::ring(l, &m);
        });
    }
    extend_ref [14] {
        let (a, b) = (sym::u32(), sym::u32());
        let mut slot = MaybeUninit::uninit();
        let l = fresh::<u32, Plain>(&mut slot);
        l.extend(&[a, b]);
        l.extend([b].iter());
        let mut m = Seq::<4>::new();
        m.push(a);
        m.push(b);
        m.push(b);
        same_list(l, &m);
        witness!("end");
    }
}
