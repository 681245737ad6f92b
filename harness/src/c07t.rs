//! Larger trees: all 14 shapes of 4 nodes (42 of 5, 132 of 6 thorough) and some of 5 and 6 (the longest inner spines among them), with `ParentColor::ptr` replaced
//! by a plain read (its trees have no colors); nth, count, last, fold and any on trees of 3; that `ptr` gives the pointer without the color is shown for every value.
use crate::el::*;
use crate::env::{outer, split};
use crate::mtree::*;
use crate::sym;
use crate::ways::{ways, WAYS};
use eastl_rs::map::Map;
use eastl_rs::set::Set;
use std::mem::MaybeUninit;
use eastl_rs::compare::{Compare, Greater, Less};
use eastl_rs::internal::rb_tree::node::{Node, ParentColor};

#[allow(dead_code)]
pub fn plain_ptr<K, V>(p: &ParentColor<K, V>) -> *mut Node<K, V> {
    unsafe { *(p as *const _ as *const *mut Node<K, V>) }
}
fn some<C: Compare<u32> + Default>(n: usize, shapes: &[u8], o: u8) {
    unsafe { COLORS = false };
    split(shapes.len() as u8, |s| step::<u32, u32, Plain, C, 8>(n, shapes[s as usize], o));
}
/// nth, count, last, fold and any agree with the order of the keys.
fn tree_ways(what: u8) {
    unsafe { COLORS = false };
    outer(WAYS, |w| split(5, |k| {
        let ks = Seq::<8>::fill(3);
        let vs = Seq::<8>::fill_of::<u32>(3);
        let mut slot = MaybeUninit::uninit();
        let mut slot2 = MaybeUninit::uninit();
        match what {
            0 => {
                let m: &mut Map<u32, u32, Plain, Less<u32>> = tree_at(&mut slot, &ks, &vs, 1);
                ways(w, k as usize, unsafe { m.iter() }, &vs, |(_, v)| *v)
            }
            1 => {
                let m: &mut Map<u32, u32, Plain, Less<u32>> = tree_at(&mut slot, &ks, &vs, 2);
                ways(w, k as usize, unsafe { m.iter_mut() }, &vs, |(_, v)| *v)
            }
            _ => {
                let s: &mut Set<u32, Plain> = set_at(&mut slot2, &ks, 3);
                ways(w, k as usize, unsafe { s.iter() }, &ks, |k| *k)
            }
        }
    }));
}
const ALL: [u8; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
fn walk<const SET: bool>(n: usize, shapes: &[u8]) {
    unsafe { COLORS = false };
    split(shapes.len() as u8, |s| {
        let s = shapes[s as usize];
        if SET {
            iterate_set::<8>(n, s)
        } else {
            iterate_mut::<u32, 8>(n, s)
        }
    });
}
harnesses! {
    pointer [4] {
        let raw = sym::usize();
        let p: ParentColor<u32, u32> = unsafe { std::mem::transmute(raw) };
        check!(p.ptr() as usize == raw & !1, "the parent pointer is what is stored without the color");
        check!((p.color() as usize) == raw & 1, "the color is the lowest bit");
        witness!("end");
    }
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    iter4 [18] { unsafe { COLORS = false }; split(14, |s| iterate::<u32, 8>(4, s)); }
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    iter_mut4 [18] { walk::<false>(4, &ALL); }
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    iter_set4 [18] { walk::<true>(4, &ALL); }
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    iter5 [14] { walk::<false>(5, &[0, 3, 7, 11, 13, 16, 22, 28, 35, 41]); }
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    iter6 [14] { walk::<false>(6, &[0, 17, 41, 43, 66, 90, 99, 131]); }
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    get_mut2 [8] { unsafe { COLORS = false }; outer(2, |n| split(SHAPES[n as usize + 1], |s| step::<u32, u32, Plain, Less<u32>, 8>(n as usize + 1, s, GET_MUT))); }
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    get_mut3 [8] { some::<Greater<u32>>(3, &[0, 1, 2, 3, 4], GET_MUT); }
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    ways_map [42] { tree_ways(0); }
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    ways_map_mut [42] { tree_ways(1); }
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    ways_set [42] { tree_ways(2); }
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    x_iter5 [46] { unsafe { COLORS = false }; split(42, |s| iterate::<u32, 8>(5, s)); }
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    x_iter6 [136] { unsafe { COLORS = false }; split(132, |s| iterate_mut::<u32, 8>(6, s)); }
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    x_get_mut4 [18] { some::<Greater<u32>>(4, &ALL, GET_MUT); }
}
