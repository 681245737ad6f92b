//! Map in ordered text: every tree of 0..=2 nodes, one of 3, with `ParentColor::ptr` replaced as in C07.
use crate::c25::*;
use crate::el::*;
use crate::env::split;
use crate::mtree;
use crate::mvmap::VKey;
use eastl_rs::compare::Less;
use eastl_rs::internal::rb_tree::node::{Node, ParentColor};
use std::mem::MaybeUninit;

pub fn plain_ptr<K, V>(p: &ParentColor<K, V>) -> *mut Node<K, V> {
    unsafe { *(p as *const _ as *const *mut Node<K, V>) }
}

fn tree(n: usize, shape: u8) {
    unsafe { mtree::COLORS = false };
    let ks = mtree::keys::<Less<u32>, 4>(n);
    let vs = Seq::<4>::fill_of::<Sh>(n);
    let mut slot = MaybeUninit::uninit();
    let m: &mut eastl_rs::map::Map<VKey, Sh, Plain, Less<VKey>> = mtree::tree_at(&mut slot, &ks, &vs, shape);
    shows(&shown(&*m), &pairs::<8>(&ks.a, &vs.a, n));
}

harnesses! {
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, crate::c25::heap2::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, crate::c25::heap2::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, crate::c25::heap2::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::c25::heap2::format))]
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    map1 [34] { split(2, |n| tree(n as usize, 0)); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, crate::c25::heap3::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, crate::c25::heap3::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, crate::c25::heap3::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::c25::heap3::format))]
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    map2a [34] { tree(2, 0); witness!("end"); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, crate::c25::heap3::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, crate::c25::heap3::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, crate::c25::heap3::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::c25::heap3::format))]
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    map2b [34] { tree(2, 1); witness!("end"); }
    #[cfg_attr(kani, kani::stub(std::alloc::alloc, crate::c25::heap::alloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::dealloc_nonnull, crate::c25::heap::dealloc))]
    #[cfg_attr(kani, kani::stub(alloc::alloc::realloc_nonnull, crate::c25::heap::realloc))]
    #[cfg_attr(kani, kani::stub(std::fmt::format, crate::c25::heap::format))]
    #[cfg_attr(kani, kani::stub(eastl_rs::internal::rb_tree::node::ParentColor::ptr, plain_ptr))]
    map3 [34] { tree(3, 2); witness!("end"); }
}
