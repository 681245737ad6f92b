//! Map and Set, lookups (get, contains_key, get_mut): every search tree of 0..=3 nodes and some of 4 (all thorough),
//! all keys and values and the key looked up symbolic, under Less, Greater and a third order. clear and use after
//! it: every tree of 0..=4 nodes. iter: every tree of 0..=3 nodes, iter_mut and Set::iter of 0..=2, with colors;
//! values of 4, 12 and (alignment 16) 16 bytes.
//! Maps and sets made by the crate in every way and the empty map of C++.
use crate::el::*;
use crate::env::{outer, split};
use crate::mtree::*;
use crate::sym;
use eastl_rs::compare::{Compare, Greater, Less};
use eastl_rs::map::Map;
use eastl_rs::set::Set;

/// A third order, on keys and what they are made from.
#[derive(Default)]
struct Mix {
    _p: u8,
}
impl Compare<u32> for Mix {
    fn compare(a: &u32, b: &u32) -> bool {
        a.rotate_left(7) < b.rotate_left(7)
    }
}
fn each<C: Compare<u32> + Default>(n: usize, o: u8) {
    split(SHAPES[n], |s| step::<u32, u32, Plain, C, 6>(n, s, o));
}
fn upto<C: Compare<u32> + Default>(n: u8, o: u8) {
    outer(n + 1, |n| each::<C>(n as usize, o));
}
fn some<C: Compare<u32> + Default>(n: usize, shapes: &[u8], o: u8) {
    split(shapes.len() as u8, |s| step::<u32, u32, Plain, C, 6>(n, shapes[s as usize], o));
}
fn use_empty<C: Compare<u32> + Default>(m: &mut Map<u32, u32, Plain, C>) {
    let q = sym::u32();
    check!(m.len() == 0 && m.is_empty() && m.get(&q).is_none() && !m.contains_key(&q) && m.get_mut(&q).is_none(), "an empty map is empty");
    unsafe { check!(m.iter().next().is_none() && m.iter_mut().next().is_none(), "an empty map is empty") };
}

harnesses! {
    lookup2 [8] { upto::<Less<u32>>(2, LOOKUP); }
    lookup3a [8] { some::<Less<u32>>(3, &[0, 2, 4], LOOKUP); }
    lookup3b [8] { some::<Less<u32>>(3, &[1, 3], LOOKUP); }
    lookup4a [8] { some::<Greater<u32>>(4, &[0, 6], LOOKUP); }
    lookup4b [8] { some::<Less<u32>>(4, &[7, 9], LOOKUP); }
    lookup4c [8] { some::<Less<u32>>(4, &[2, 5, 13], LOOKUP); }
    lookup_mix [8] { some::<Mix>(3, &[1, 2], LOOKUP); }
    get_mut2 [8] { upto::<Greater<u32>>(1, GET_MUT); }
    clear3 [10] { upto::<Less<u32>>(3, CLEAR); }
    clear4 [18] { each::<Greater<u32>>(4, CLEAR); }
    value12 [10] { split(2, |o| step::<u32, E12, Plain, Less<u32>, 6>(2, 1, [LOOKUP, CLEAR][o as usize])); }
    set2 [8] { outer(3, |n| split(SHAPES[n as usize], |s| step_set::<u32, Plain, Less<u32>, 6>(n as usize, s, LOOKUP))); }
    set3 [8] { split(3, |s| step_set::<u32, Plain, Greater<u32>, 6>(3, [0, 2, 3][s as usize], LOOKUP)); }
    set_clear [10] { outer(4, |n| split(SHAPES[n as usize], |s| step_set::<u32, Plain, Less<u32>, 6>(n as usize, s, CLEAR))); }
    // iteration over trees with colors
    iter2 [8] { outer(3, |n| split(SHAPES[n as usize], |s| iterate::<u32, 4>(n as usize, s))); }
    iter3a [8] { split(2, |s| iterate::<u32, 4>(3, s)); }
    iter3b [8] { split(2, |s| iterate::<u32, 4>(3, s + 2)); }
    iter3c [8] { split(1, |_| iterate::<u32, 4>(3, 4)); }
    iter_mut2 [8] { outer(3, |n| split(SHAPES[n as usize], |s| iterate_mut::<u32, 4>(n as usize, s))); }
    iter_mut3 [8] { split(1, |_| iterate_mut::<u32, 4>(3, 2)); }
    // values of a greater alignment than the tree itself
    iter_align [8] { outer(3, |n| split(SHAPES[n as usize], |s| iterate::<A16, 4>(n as usize, s))); }
    iter_mut_align [8] { outer(2, |n| split(SHAPES[n as usize], |s| iterate_mut::<A16, 4>(n as usize, s))); }
    lookup_align [8] { split(2, |o| step::<u32, A16, Plain, Less<u32>, 6>(2, 0, [LOOKUP, CLEAR][o as usize])); }
    iter_set [8] { outer(3, |n| split(SHAPES[n as usize], |s| iterate_set::<4>(n as usize, s))); }
    x_iter4a [10] { split(7, |s| iterate::<u32, 4>(4, s)); }
    x_iter4b [10] { split(7, |s| iterate::<u32, 4>(4, 7 + s)); }
    x_iter_mut3 [8] { split(5, |s| iterate_mut::<u32, 4>(3, s)); }
    x_lookup4a [10] { split(5, |s| step::<u32, u32, Plain, Less<u32>, 6>(4, s, LOOKUP)); }
    x_lookup4b [10] { split(5, |s| step::<u32, u32, Plain, Less<u32>, 6>(4, 5 + s, LOOKUP)); }
    x_lookup4c [10] { split(4, |s| step::<u32, u32, Plain, Less<u32>, 6>(4, 10 + s, LOOKUP)); }
    x_clear5 [46] { each::<Greater<u32>>(5, CLEAR); }
    fresh [8] {
        split(5, |how| {
            let mut m: Map<u32, u32, Plain> = match how {
                0 => Map::default(),
                1 => Map::with_allocator(Plain::default()),
                2 => Map::with_compare(Less::new()),
                _ => Map::with_allocator_and_compare(Plain::default(), Less::new()),
            };
            use_empty(&mut m);
            m.clear();
            use_empty(&mut m);
            let mut s: Set<u32, Plain> = match how {
                0 => Set::default(),
                1 => Set::with_allocator(Plain::default()),
                2 => Set::with_compare(Less::new()),
                _ => Set::with_allocator_and_compare(Plain::default(), Less::new()),
            };
            let q = sym::u32();
            check!(s.len() == 0 && s.is_empty() && !s.contains_key(&q) && unsafe { s.iter().next().is_none() }, "an empty set is empty");
            s.clear();
            check!(s.len() == 0 && s.is_empty() && !s.contains_key(&q) && unsafe { s.iter().next().is_none() }, "an empty set is empty");
        });
    }
}
