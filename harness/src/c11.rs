//! Blocks of HashMap, HashSet, Map and Set: the steps of C04 and C07 over an allocator that keeps books (each block
//! returned once, with its size and alignment; nothing left after the drop; no empty requests; the solver's memory
//! model rejects any use of a returned block). Tables of 2 buckets with 0..=3 entries in every distribution, growth
//! from no storage, from 2 and from 5 buckets; the shared empty bucket array keeps its contents. Trees: every
//! shape of 0..=4 nodes (5 thorough), cleared and dropped.
// cbmc: --max-field-sensitivity-array-size 256
use crate::el::*;
use crate::env::{live_blocks, outer, split, Led};
use crate::mhash::{self, *};
use crate::mtree;
use crate::sym;
use eastl_rs::compare::{Greater, Less};
use eastl_rs::hash_map::HashMap;
use eastl_rs::hash_set::HashSet;

type K = HKey;
fn two(o: u8, lo: u8, hi: u8) {
    outer(hi - lo, |s| {
        let hs = TWO[(lo + s) as usize];
        split(hs.len() as u8 + 1, |w| step_led::<u32>(hs, 2, 4, o, w as usize, (s & 1) as usize))
    });
}
/// One operation with books, and as many blocks as nodes and bucket arrays.
fn step_led<V: El>(hs: &[usize], n: u32, next: u32, o: u8, which: usize, h: usize) {
    Led::reset();
    let mut p = Pairs::<8>::fill::<V>(hs);
    let mut m: M<K, V, Led> = map_at(&p, n, next);
    mhash::op(&mut m, &mut p, o, which, h);
    let r = unsafe { &*(&m as *const _ as *const RawHash<K, V, Led>) };
    check!(live_blocks() == p.n + (r.bucket_count > 1) as usize, "a block for each pair and one for the buckets");
    check!(EMPTY[0] == 0 && EMPTY[1] == !0, "the shared empty bucket array is not written");
    drop(m);
    Led::finish();
}
fn set_two(o: u8, lo: u8, hi: u8) {
    outer(hi - lo, |s| {
        let hs = TWO[(lo + s) as usize];
        split(hs.len() as u8 + 1, |w| step_set::<K, Led, 5>(hs, 2, 4, o, w as usize, 1))
    });
}
harnesses! {
    insert_a [22] { two(INSERT, 0, 6); }
    insert_b [22] { two(INSERT, 6, 10); }
    remove_a [22] { two(REMOVE, 0, 6); }
    remove_b [22] { two(REMOVE, 6, 10); }
    remove_entry [22] { two(REMOVE_ENTRY, 3, 7); }
    or_insert [22] { two(OR_INSERT, 2, 6); }
    or_insert_with [22] { two(OR_INSERT_WITH, 1, 4); }
    modify [22] { two(MODIFY, 2, 5); }
    entry_drop [22] { two(ENTRY_DROP, 1, 5); }
    clear [22] { split(10, |s| step_led::<u32>(TWO[s as usize], 2, 4, CLEAR, 9, 1)); }
    get_mut [22] { split(4, |s| step_led::<u32>(TWO[3 + s as usize], 2, 4, [GET_MUT, ITER_MUT][s as usize & 1], 0, 1)); }
    empty [22] { split(mhash::OPS, |o| step_led::<u32>(&[], 1, 0, o, 0, 3)); }
    grow2 [22] {
        outer(3, |s| split(3, |o| step_led::<u32>(
            [&[0, 1], &[2, 4], &[5, 1 << 33]][s as usize], 2, 2, [INSERT, OR_INSERT, MODIFY][o as usize], 9, [4, 0, 1 << 33][s as usize])));
    }
    grow5 [22] { split(2, |s| step_led::<u32>([&[0, 1, 2, 3, 4], &[7, 7, 18, 29, 9]][s as usize], 5, 5, INSERT, 9, 21)); }
    value12 [22] { split(4, |s| step_led::<E12>(TWO[3 + s as usize], 2, 4, [INSERT, REMOVE, OR_INSERT, CLEAR][s as usize], 1, 0)); }
    value8 [22] { split(4, |s| step_led::<u8>(TWO[3 + s as usize], 2, 2, [INSERT, REMOVE, OR_INSERT, CLEAR][s as usize], 5, 0)); }
    set_insert [22] { set_two(INSERT, 0, 6); }
    set_remove [22] { set_two(REMOVE, 1, 6); }
    set_clear [22] { split(6, |s| step_set::<K, Led, 5>(TWO[2 + s as usize], 2, 4, CLEAR, 9, 1)); }
    set_grow [22] { split(3, |s| step_set::<K, Led, 5>([&[][..], &[0, 1], &[5, 1 << 33]][s as usize], [1, 2, 2][s as usize], [0, 2, 2][s as usize], INSERT, 9, 6)); }
    history [22] {
        split(3, |how| {
            Led::reset();
            {
                let mut m: HashMap<u32, u32, Led> = match how {
                    0 => HashMap::new(),
                    1 => HashMap::default(),
                    _ => [(4, sym::u32())].into_iter().collect(),
                };
                check!(how == 2 || live_blocks() == 0, "a new map has no block");
                m.insert(1, 2);
                m.insert(1, 3);
                m.insert(3, 3);
                m.insert(5, 3);
                m.remove(&3);
                m.clear();
                check!(live_blocks() == 1, "a cleared map has its buckets only");
                m.insert(1, 2);
            }
            Led::finish();
        });
    }
    set_history [22] {
        split(2, |how| {
            Led::reset();
            {
                let mut s: HashSet<u32, Led> = if how == 0 { HashSet::new() } else { [7, 7, 2].into_iter().collect() };
                s.insert(1);
                s.insert(1);
                s.insert(9);
                s.remove(&1);
            }
            Led::finish();
        });
    }
    tree3 [10] { outer(4, |n| outer(mtree::SHAPES[n as usize], |s| split(2, |c| tree(n as usize, s, c == 0)))); }
    tree4 [18] { outer(mtree::SHAPES[4], |s| split(2, |c| tree(4, s, c == 0))); }
    tree_set [10] { outer(4, |n| split(mtree::SHAPES[n as usize], |s| mtree::step_set::<u32, Led, Less<u32>, 6>(n as usize, s, mtree::CLEAR))); }
    tree_lookup [10] { split(2, |s| mtree::step::<u32, u32, Led, Less<u32>, 6>(2, s, mtree::LOOKUP)); }
    tree12 [10] { split(2, |s| mtree::step::<u32, E12, Led, Less<u32>, 6>(2, s, mtree::CLEAR)); }
    x_insert [26] { outer(10, |s| split(2, |h| step_led::<E12>(TWO[s as usize], 2, 3, INSERT, 9, h as usize))); }
    x_remove_entry [22] { two(REMOVE_ENTRY, 0, 10); }
    x_or_insert [22] { two(OR_INSERT, 0, 10); }
    x_modify [22] { two(MODIFY, 0, 10); }
    x_set_insert [22] { set_two(INSERT, 6, 10); }
    x_set_remove [22] { set_two(REMOVE, 6, 10); }
    x_grow5 [22] { split(4, |s| step_led::<u32>([&[0, 5, 10, 15, 1 << 33], &[3, 4, 8, 14, 4], &[1, 1, 1, 1, 1], &[2, 7, 4, 9, 0]][s as usize], 5, 5, OR_INSERT, 9, 32)); }
    x_tree5 [46] { outer(mtree::SHAPES[5], |s| split(2, |c| tree(5, s, c == 0))); }
}
/// Cleared, or only dropped.
fn tree(n: usize, s: u8, clear: bool) {
    use eastl_rs::map::Map;
    Led::reset();
    let ks = Seq::<6>::fill(n);
    let mut slot = std::mem::MaybeUninit::uninit();
    let m: &mut Map<u32, u32, Led, Greater<u32>> = mtree::tree_at(&mut slot, &ks, &ks, s);
    check!(live_blocks() == n, "harness: a block for each pair");
    if clear {
        m.clear();
        check!(live_blocks() == 0, "clear returns every node");
        m.clear();
    }
    unsafe { std::ptr::drop_in_place(m) };
    Led::finish();
}
