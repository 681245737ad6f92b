//! Values in HashMap, HashSet, Map and Set: the steps of C04 and C07 over keys and values that record their life:
//! each is dropped exactly once and only while alive, none is left after the table and everything it handed out
//! are gone. Tables of 2 buckets with 0..=3 entries in every distribution, growth from no storage and from 2
//! buckets. Trees: every shape of 0..=3 nodes (4 thorough), cleared and dropped.
// cbmc: --max-field-sensitivity-array-size 256
use crate::el::*;
use crate::env::{live_values, outer, split, D};
use crate::mhash::{self, *};
use crate::mtree;
use crate::mvmap::VDKey;
use crate::sym;
use eastl_rs::compare::Less;

type K = HDKey;
fn st(hs: &[usize], n: u32, next: u32, o: u8, which: usize, h: usize) {
    D::reset();
    let mut p = Pairs::<5>::fill::<D>(hs);
    let mut m: M<K, D, Plain> = map_at(&p, n, next);
    mhash::op(&mut m, &mut p, o, which, h);
    check!(live_values() == 2 * p.n, "exactly the keys and values of the map are alive");
    let mut c = 0;
    for (k, v) in m.iter() {
        check!(k.id() != !0 && v.live(), "a pair that is reachable is not alive");
        c += 1;
        if c == p.n {
            break;
        }
    }
    drop(m);
    D::finish();
}
fn two(o: u8, lo: u8, hi: u8) {
    outer(hi - lo, |s| {
        let hs = TWO[(lo + s) as usize];
        split(hs.len() as u8 + 1, |w| st(hs, 2, 4, o, w as usize, (s & 1) as usize))
    });
}
fn set_two(o: u8, lo: u8, hi: u8) {
    outer(hi - lo, |s| {
        let hs = TWO[(lo + s) as usize];
        split(hs.len() as u8 + 1, |w| step_set::<K, Plain, 5>(hs, 2, 4, o, w as usize, 1))
    });
}
fn tree(n: usize, s: u8, clear: bool) {
    use eastl_rs::map::Map;
    D::reset();
    let ks = Seq::<6>::fill(n);
    let mut slot = std::mem::MaybeUninit::uninit();
    let m: &mut Map<VDKey, D, Plain, Less<VDKey>> = mtree::tree_at(&mut slot, &ks, &ks, s);
    check!(live_values() == 2 * n, "harness: the keys and values");
    if clear {
        m.clear();
        check!(live_values() == 0, "clear drops every pair");
        m.clear();
    }
    unsafe { std::ptr::drop_in_place(m) };
    D::finish();
}

harnesses! {
    insert_a [22] { two(INSERT, 0, 6); }
    insert_b [22] { two(INSERT, 6, 10); }
    remove_a [22] { two(REMOVE, 0, 6); }
    remove_b [22] { two(REMOVE, 6, 10); }
    remove_entry [22] { two(REMOVE_ENTRY, 3, 7); }
    or_insert [22] { two(OR_INSERT, 2, 6); }
    or_insert_with [22] { two(OR_INSERT_WITH, 1, 4); }
    modify [22] { two(MODIFY, 2, 5); }
    entry_drop [22] { two(ENTRY_DROP, 0, 5); }
    clear [22] { split(10, |s| st(TWO[s as usize], 2, 4, CLEAR, 9, 1)); }
    get_mut [22] { split(4, |s| st(TWO[3 + s as usize], 2, 4, [GET_MUT, ITER_MUT][s as usize & 1], 0, 1)); }
    empty [22] { split(mhash::OPS, |o| st(&[], 1, 0, o, 0, 3)); }
    grow2 [22] {
        outer(2, |s| split(3, |o| st([&[0, 1], &[2, 4]][s as usize], 2, 2, [INSERT, OR_INSERT, MODIFY][o as usize], 9, [4, 0][s as usize])));
    }
    set_insert [22] { set_two(INSERT, 0, 6); }
    set_remove [22] { set_two(REMOVE, 1, 6); }
    set_clear [22] { split(6, |s| step_set::<K, Plain, 5>(TWO[2 + s as usize], 2, 4, CLEAR, 9, 1)); }
    set_grow [22] { split(2, |s| step_set::<K, Plain, 5>([&[][..], &[0, 1]][s as usize], [1, 2][s as usize], [0, 2][s as usize], INSERT, 9, 6)); }
    tree3 [14] { outer(4, |n| outer(mtree::SHAPES[n as usize], |s| split(2, |c| tree(n as usize, s, c == 0)))); }
    tree_set [14] { outer(3, |n| split(mtree::SHAPES[n as usize], |s| tree_set_step(n as usize, s, s & 1 == 0))); }
    x_insert [26] { outer(10, |s| split(2, |h| st(TWO[s as usize], 2, 3, INSERT, 9, h as usize))); }
    x_remove_entry [22] { two(REMOVE_ENTRY, 0, 10); }
    x_or_insert [22] { two(OR_INSERT, 0, 10); }
    x_or_insert_with [22] { two(OR_INSERT_WITH, 0, 10); }
    x_modify [22] { two(MODIFY, 0, 10); }
    x_set_insert [22] { set_two(INSERT, 6, 10); }
    x_set_remove [22] { set_two(REMOVE, 6, 10); }
    x_tree4 [18] { outer(14, |s| split(2, |c| tree(4, s, c == 0))); }
}
fn tree_set_step(n: usize, s: u8, clear: bool) {
    use eastl_rs::set::Set;
    D::reset();
    let ks = Seq::<6>::fill(n);
    let mut slot = std::mem::MaybeUninit::uninit();
    let m: &mut Set<VDKey, Plain, Less<VDKey>> = mtree::set_at(&mut slot, &ks, s);
    if clear {
        m.clear();
        check!(live_values() == 0, "clear drops every key");
    }
    unsafe { std::ptr::drop_in_place(m) };
    D::finish();
}
